"""Lists, nested buffers and selectors."""
import copy
import struct

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B11'
RULE = ("lists of every element type in closed, computed, open, split and bit-shifted ranges, with counts that are absent, "
        "constant, referenced, computed, smaller and larger than what the range holds, followed by a field after the "
        "list; deep nesting; trees of tagged records decoded by selectors (by class, by object and size, none), where "
        "every selector call is recorded: object, index, count, container and the bytes it was shown")
CASES = {'quick': 1500, 'thorough': 100000}
REQUIRE = {'images_compared': 890, 'decodes_compared': 2500, 'count_too_large': 300, 'count_too_small': 220,
           'empty_lists': 66, 'selector_calls': 3500, 'trees': 210, 'tree_depth_3': 60, 'selected_none': 150,
           'selected_pair': 300, 'selected_class': 900, 'after_list': 300, 'shifted_lists': 70, 'split_lists': 70,
           'elem_int': 200, 'elem_str': 90, 'elem_buf': 180, 'sequences_of_any_kind': 200, 'bad_selectors': 8,
           'truncated_trees': 200, 'tiny_lists': 20, 'long_lists': 4, 'long_trees': 5, 'selected_fraction': 150, 'selected_nothing_taken': 60}


def generate(rng, tier):
    r = rng.random()
    if r < 0.55:
        return list_case(rng)
    if r < 0.75:
        case = bufcheck.gen_case(rng, lists=1, nested=0.9, depth=3, selector=0.6, tail=0.8, dynamic=0.6, derived=0.3,
                                 max_bytes=8, text=0.2)
        data = bufcheck.model_encode(case['spec'], case['values'])[0]
        case['inputs'] = [] if data is None else [data, bufcheck.mutate(rng, data), data + b'\x01\x02\x03']
        return case
    return tree_case(rng)


# -- lists --------------------------------------------------------------------------------------------------------

def list_case(rng):
    g = bufgen.Gen(rng, derived=0, inherit=0, declared=0, dynamic=0.6, tail=0.5, max_bytes=4, depth=1, open_tail=False)
    r = rng.random()
    tiny = rng.random() < 0.08       # elements smaller than a byte, the last of which may start within the last byte
    if tiny:
        bits = rng.choice((2, 4, 4, 6))
        el = ['buf', {'name': 'Tiny', 'base': None, 'fields': [
            {'kind': 'int', 'signed': False, 'endian': 'big', 'api': 0, 'width': bits, 'name': 'v',
             'w': ['bit', ['at', 0], ['s', 0, bits]]}]}]
    elif r < 0.4:
        el = ['int', rng.choice((1, 2, 4, 8)), rng.random() < 0.5, rng.choice(bufgen.ENDIANS)]
    elif r < 0.6:
        el = ['str', rng.randint(1, 5)]
    elif r < 0.8:
        el = ['buf', g.sized_spec(rng.randint(1, 4), 1)]
    else:
        el = ['buf', g.spec(1, open_tail=False, max_bytes=3)]
        if not bufgen.self_delimiting(el[1]):
            el = ['buf', g.sized_spec(rng.randint(1, 4), 0)]
    size = el[1] if el[0] != 'buf' else (bufmodel.static_bits(el[1]) or 24) // 8 or 1
    cnt = {'kind': 'int', 'signed': False, 'endian': 'big', 'api': 0, 'width': 8, 'name': 'cnt', 'w': ['at', 0]}
    length = dict(cnt, name='length', w=['at', 1])
    f = {'kind': 'list', 'elem': el, 'name': 'items', 'var': True}
    room = size * rng.randint(0, 5)
    if room and rng.random() < 0.1 and el[0] == 'int':
        room += 1
    how = rng.choice(('closed', 'computed', 'open', 'open', 'split', 'shifted'))
    if tiny:
        how = 'tiny'
    if how == 'tiny':
        k, skip = rng.randint(1, 7), rng.choice((0, 0, 1, 3))
        f['w'] = ['bit', ['sl', 2, 2 + (skip + k * bits + 7) // 8], ['s', skip, skip + k * bits]]
    elif how == 'closed':
        f['w'] = ['sl', 2, 2 + room]
    elif how == 'computed':
        f['w'] = ['sl', 2, ['+', 2, ['f', 'length']]]
    elif how == 'open':
        f['w'] = ['sl', 2, None]
    elif how == 'split':
        m = rng.randint(0, room)
        f['w'] = ['ls', [['sl', 60, 60 + m], ['sl', 2, 2 + room - m]]]
    else:
        room = room or size           # an empty range of bits is nowhere in particular
        k = rng.randint(1, 7)
        f['w'] = ['bit', ['sl', 2, 2 + room + 1], ['s', k, k + room * 8]]
    n = rng.random()
    if n < 0.25:
        f['n'] = rng.randint(0, 6)
    elif n < 0.55:
        f['n'] = [rng.choice(('f', 'self')), 'cnt']
    elif n < 0.65:
        f['n'] = ['-', ['*', ['f', 'cnt'], 2], ['f', 'cnt']]
    elif n < 0.72:
        f['n'], f['ua'] = ['mf', 'cnt'], ['cnt']
    elif n < 0.8:
        f['n'] = ['-', ['f', 'cnt'], rng.randint(1, 4)]         # may be below zero: no elements
    fields = [cnt, length, f]
    after = rng.random() < 0.5 and how in ('closed', 'open', 'computed')
    if after:
        fields.append(dict(cnt, name='end', w=['at', ['after', 'items']]))
    spec = {'name': 'Lists', 'fields': fields, 'base': None}
    case = {'spec': spec, 'values': None, 'how': how, 'inputs': []}
    k = k if how == 'tiny' else room // size if how in ('closed', 'split', 'shifted') else rng.choice((0, 1, 2, 3, 5))
    if how == 'open' and el[0] == 'int' and f.get('n') is None and rng.random() < 0.3:
        k = rng.choice((255, 256, 300, 1000))
    items = [bufgen.element(rng, el) for _ in range(k)]
    case['values'] = {'cnt': k if rng.random() < 0.7 else rng.randint(0, 6), 'length': 0, 'items': items}
    if after:
        case['values']['end'] = rng.randint(0, 255)
    if how == 'computed':
        payload = bufcheck.model_encode({'name': 'L', 'base': None, 'fields': [dict(f, w=['sl', 0, None], n=None)]},
                                        {'items': items})[0]
        case['values']['length'] = len(payload or b'') if rng.random() < 0.9 else rng.randint(0, 9)
    data, _, err = bufcheck.model_encode(spec, case['values'])
    if data is not None:
        case['inputs'].append(data)
        for _ in range(3):
            out = bytearray(data)
            if out:
                out[0] = rng.randint(0, 7)
            if len(out) > 1 and how == 'computed':
                out[1] = rng.randint(0, len(out))
            if rng.random() < 0.5:
                out += bytearray(rng.getrandbits(8) & 0x7f for _ in range(rng.randint(1, 12)))
            if rng.random() < 0.2 and len(out) > 2:
                del out[rng.randint(2, len(out)):]
            case['inputs'].append(bytes(out))
    return case


def check_lists(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    spec, values = case['spec'], case['values']
    real = bufcheck.Real(spec, obs)
    want, stored, err = bufcheck.model_encode(spec, values)
    if 'how' in case:
        f = spec['fields'][2]
        obs.hit('elem_' + f['elem'][0])
        if case['how'] in ('shifted', 'split', 'tiny'):
            obs.hit(case['how'] + '_lists')
        if not values['items']:
            obs.hit('empty_lists')
    else:
        bufcheck.features(spec, obs)
    if 'how' in case and len(values['items']) > 250:
        obs.hit('long_lists')
    obj = real.make(values)
    if err is None:
        obs.hit('images_compared')
        obs.equal(real.pack(obj), want, 'image', "%r", values)
        if 'how' in case:
            # Any sequence will do.
            for kind in (tuple, iter_once):
                obj.items = kind(bufmodel.make_value(real.builder, f, values['items']))
                if kind is iter_once:
                    obj.items = list(obj.items)
                obs.hit('sequences_of_any_kind')
                obs.equal(real.pack(obj), want, 'image', "items as a %s: %r", kind.__name__, values)
    elif not isinstance(err, bufmodel.Unspecified):
        got, perr = real.try_pack(obj)
        obs.expect(perr is not None, 'accepted', "packed %r although %s", got, err)
    for raw in case['inputs']:
        want, used, err = bufcheck.model_decode(spec, raw)
        if isinstance(err, bufmodel.Unspecified):
            obs.hit('unspecified')
            continue
        try:
            got, got_used = real.unpack(raw)
        except InstructBufferError as e:
            obs.hit('rejected')
            obs.expect(err is not None, 'rejected', "%r was rejected: %s", raw, str(e)[:400])
            continue
        obs.expect(err is None, 'accepted', "%r was accepted as %r although %s", raw, got, err)
        obs.hit('decodes_compared')
        obs.expect(same(got, want), 'decoded', "%r: %s", raw, bufcheck.diff(got, want))
        obs.equal(float(got_used), float(used), 'consumed', "%r", raw)
        if 'how' in case:
            if 'end' in got:
                obs.hit('after_list')
            n = f.get('n')
            if n is not None:
                count = bufmodel.UnpackEval(spec, bufmodel.bits_of_bytes(raw)).num(n)
                if count > len(got['items']):
                    obs.hit('count_too_large')
                elif f['w'][0] == 'sl' and f['w'][2] is None:
                    obs.hit('count_too_small')


def iter_once(seq):
    return (x for x in seq)


# -- trees --------------------------------------------------------------------------------------------------------
# record = [tag][body]
#   1: uint16                     2: [length][text]             3: [count][records...]  (count given by a field)
#   4: [length][records...]  (closed range, no count)           5: a byte, which the selector decodes by itself
#   6: four bits, in a class that ends in the middle of a byte: a packed record takes whole bytes
#   0: no object, no size: the selector returns None
#   7: an object the selector makes which takes nothing from the buffer: it is seen again by the next call, so the rest of
#      a counted list are such objects (they pack to nothing, so only the first of them can be decoded in place)

def tree(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.3:
        r = rng.random()
        if r < 0.4:
            return [1, rng.getrandbits(16)]
        if r < 0.7:
            return [2, bufgen.text(rng, rng.choice((0, 1, 3, 7)))]
        if r < 0.85:
            return [6, rng.getrandbits(4)]
        return [5, rng.getrandbits(8)]
    kids = [tree(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 3)))]
    return [3 if r < 0.7 else 4, kids]


def encode_tree(t):
    if t[0] == 1:
        return struct.pack('>BH', 1, t[1])
    if t[0] == 2:
        return struct.pack('BB', 2, len(t[1])) + t[1].encode('ascii')
    if t[0] in (5, 6):
        return struct.pack('BB', t[0], t[1])
    body = b''.join(encode_tree(k) for k in t[1])
    return struct.pack('BB', t[0], len(t[1]) if t[0] == 3 else len(body)) + body


class Refused(Exception):
    pass


class Reader(object):
    """The reference decoder of records; records the selector calls that must be made."""

    def __init__(self, none_tag):
        self.none_tag = none_tag
        self.calls = []

    def record(self, data, index, n, so_far, level):
        self.calls.append((level, index, n, so_far, data))
        tag = data[0] if data else None
        if tag == 1:
            if len(data) < 3:
                raise Refused()
            return [1, struct.unpack('>H', data[1:3])[0]], 3
        if tag == 2:
            if len(data) < 2 or len(data) < 2 + data[1]:
                raise Refused()
            text = data[2:2 + data[1]].rstrip(b'\x00').rstrip(b' ')
            try:
                return [2, text.decode('ascii')], 2 + data[1]
            except ValueError:
                raise Refused()
        if tag in (5, 6):
            if len(data) < 2:
                raise Refused()
            return [tag, data[1] & (255 if tag == 5 else 15)], 2
        if tag == 7:
            return [7, len(data)], 0
        if tag == 3:
            if len(data) < 2:
                raise Refused()
            kids, used = self.records(data[2:], data[1], level + 1)
            return [3, kids], 2 + used
        if tag == 4:
            if len(data) < 2:
                raise Refused()
            if len(data) < 2 + data[1]:
                raise Unknown()
            kids, used = self.records(data[2:2 + data[1]], None, level + 1)
            return [4, kids], 2 + used
        return None, 0

    def records(self, data, n, level):
        out, pos = [], 0
        while pos < len(data) and (n is None or len(out) < n):
            rec, used = self.record(data[pos:], len(out), n, len(out), level)
            if used == 0 and n is None:
                raise Refused()
            out.append(rec)
            pos += used
        return out, pos


class Unknown(Exception):
    """A list in a range which the input doesn't cover: unspecified."""


def tree_case(rng):
    top = [tree(rng, rng.randint(0, 4)) for _ in range(rng.choice((0, 1, 2, 3, 4)))]
    many = rng.random() < 0.04
    if many:
        top += [tree(rng, 0) for _ in range(rng.choice((254, 256, 257, 300)))]
    body = b''.join(encode_tree(t) for t in top)
    case = {'tree': top, 'counted': rng.random() < 0.5 and not many, 'pair': rng.choice(('tuple', 'list')), 'inputs': [],
            'bad': rng.choice(('', '', '', 'size', 'text', 'triple'))}
    case['inputs'].append(body)
    for _ in range(1 if many else 4):
        r, raw = rng.random(), bytearray(body)
        if r < 0.25 and raw:
            del raw[rng.randrange(len(raw)):]
        elif r < 0.5:
            raw += bytearray([rng.choice((0, 1, 2, 3, 5, 7, 7, 9)) for _ in range(rng.randint(1, 4))])
        elif r < 0.8 and raw:
            raw[rng.randrange(len(raw))] = rng.choice((0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 9, 255))
        elif raw:
            raw.insert(rng.randrange(len(raw)), 0)
        case['inputs'].append(bytes(raw))
    return case


class Custom(object):
    """Not a buffer: the selector makes it."""

    def __init__(self, value):
        self.value = value

    def pack(self):
        return bytearray([5, self.value])


class Peek(Custom):
    """Takes nothing from the buffer."""

    def pack(self):
        return bytearray()


def check_tree(case, obs):
    from infi.instruct import buffer as B
    from infi.instruct.buffer.buffer import InstructBufferError
    calls, stack = [], []

    def select(obj, buffer, **kwargs):
        obs.hit('selector_calls')
        data = bytes(bytearray(buffer))
        calls.append((obj, kwargs.get('index'), kwargs.get('n'), list(kwargs.get('container', ())), data))
        tag = data[0]
        if tag == 5:
            if len(data) < 2:
                raise ValueError("short")
            obs.hit('selected_pair')
            return (Custom(data[1]), 2) if case['pair'] == 'tuple' else [Custom(data[1]), 2]
        if tag == 7:
            obs.hit('selected_nothing_taken')
            return (Peek(len(data)), 0) if case['pair'] == 'tuple' else [Peek(len(data)), 0]
        if tag == 9 and case['bad']:
            obs.hit('bad_selectors')
            return {'size': 7, 'text': 'ab', 'triple': (1, 2, 3)}[case['bad']]
        if tag in classes:
            obs.hit('selected_class')
            obs.hit('selected_fraction', tag == 6)
        else:
            obs.hit('selected_none')
        return classes.get(tag)

    class Number(B.Buffer):
        tag = B.uint_field(where=B.bytes_ref[0], set_before_pack=1)
        value = B.be_uint_field(where=B.bytes_ref[1:3])

    class Nibble(B.Buffer):
        tag = B.uint_field(where=B.bytes_ref[0], set_before_pack=6)
        value = B.uint_field(where=B.bytes_ref[1].bits[0:4])

    class Text(B.Buffer):
        tag = B.uint_field(where=B.bytes_ref[0], set_before_pack=2)
        size = B.uint_field(where=B.bytes_ref[1], set_before_pack=B.len_ref('value'))
        value = B.str_field(where=B.bytes_ref[2:2 + size])

    class Counted(B.Buffer):
        tag = B.uint_field(where=B.bytes_ref[0], set_before_pack=3)
        count = B.uint_field(where=B.bytes_ref[1], set_before_pack=B.len_ref('value'))
        value = B.list_field(where=B.bytes_ref[2:], n=count, type=Number, unpack_selector=select)

    class Sized(B.Buffer):
        tag = B.uint_field(where=B.bytes_ref[0], set_before_pack=4)
        size = B.uint_field(where=B.bytes_ref[1], set_before_pack=lambda self: sum(len(x.pack()) for x in self.value))
        value = B.list_field(where=B.bytes_ref[2:2 + size], type=Number, unpack_selector=select)

    classes = {1: Number, 2: Text, 3: Counted, 4: Sized, 6: Nibble}

    if case['counted']:
        class Top(B.Buffer):
            count = B.uint_field(where=B.bytes_ref[0], set_before_pack=B.len_ref('value'))
            value = B.list_field(where=B.bytes_ref[1:], n=count, type=Number, unpack_selector=select)
    else:
        class Top(B.Buffer):
            count = B.uint_field(where=B.bytes_ref[0], set_before_pack=lambda self: len(self.value) & 255)
            value = B.list_field(where=B.bytes_ref[1:], type=Number, unpack_selector=select)

    def build(t):
        if t[0] == 5:
            return Custom(t[1])
        value = [build(k) for k in t[1]] if t[0] in (3, 4) else t[1]
        return classes[t[0]](value=value)

    def plain(o):
        if o is None:
            return None
        if isinstance(o, Peek):
            return [7, o.value]
        if isinstance(o, Custom):
            return [5, o.value]
        tag = [k for k, c in classes.items() if type(o) is c]
        if not tag:
            return "a %s" % type(o).__name__
        return [tag[0], [plain(k) for k in o.value] if isinstance(o.value, list) else o.value]

    obs.hit('trees')
    obs.hit('long_trees', len(case['tree']) > 250)
    if depth(case['tree']) >= 3:
        obs.hit('tree_depth_3')
    top = Top(value=[build(t) for t in case['tree']])
    want = bytes(bytearray([len(case['tree']) & 255])) + b''.join(encode_tree(t) for t in case['tree'])
    try:
        got = bytes(top.pack())
    except InstructBufferError as e:
        obs.fail('tree-image', "pack() failed: %s" % str(e)[:500])
    obs.equal(got, want, 'tree-image', "%r", case['tree'])
    obs.hit('images_compared')
    obs.equal(top.calc_byte_size(), len(want), 'tree-size', "%r", case['tree'])

    for k, body in enumerate(case['inputs']):
        count = len(case['tree']) if k % 2 == 0 else len(case['tree']) + k - 2
        count = max(0, count)
        raw = bytes(bytearray([count & 255])) + body
        reader = Reader(0)
        try:
            want, used = reader.records(body, count if case['counted'] else None, 0)
        except Refused:
            want = None
        except Unknown:
            continue
        del calls[:]
        obj = Top()
        bad = case['bad'] and any(c[4][:1] == b'\x09' for c in reader.calls)
        try:
            got_used = obj.unpack(raw)
        except InstructBufferError as e:
            obs.hit('rejected')
            if k:
                obs.hit('truncated_trees')
            if not bad:
                obs.expect(want is None, 'tree-rejected', "%r was rejected: %s", raw, str(e)[:500])
                compare_calls(obs, raw, calls, reader.calls, False, Top, obj)
            continue
        obs.expect(not bad, 'bad-selector', "%r: what the selector returned (%s) was accepted", raw, case['bad'])
        obs.expect(want is not None, 'tree-accepted', "%r was accepted as %r", raw, [plain(x) for x in obj.value])
        obs.hit('decodes_compared')
        obs.equal([plain(x) for x in obj.value], want, 'tree', "%r", raw)
        obs.equal(float(got_used), 1.0 + used, 'tree-consumed', "%r", raw)
        compare_calls(obs, raw, calls, reader.calls, True, Top, obj)


def compare_calls(obs, raw, calls, want, complete, Top, top):
    obs.expect(len(calls) == len(want), 'selector-calls', "%r: %d selector calls, want %d", raw, len(calls), len(want))
    for (obj, index, n, container, data), (level, windex, wn, so_far, wdata) in zip(calls, want):
        obs.equal(index, windex, 'selector-index', "%r", raw)
        obs.equal(n, wn, 'selector-n', "%r", raw)
        obs.equal(len(container), so_far, 'selector-container', "%r", raw)
        obs.equal(data, wdata, 'selector-buffer', "%r", raw)
        obs.expect((obj is top) == (level == 0), 'selector-object', "%r: called with %r", raw, type(obj).__name__)
        if level == 0 and so_far and complete:
            obs.expect(all(a is b for a, b in zip(container, top.value)), 'selector-container', "%r: other objects", raw)


def depth(trees):
    return max([0] + [1 + depth(t[1]) if t[0] in (3, 4) else 1 for t in trees])


def check(case, obs):
    if 'tree' in case:
        check_tree(case, obs)
    else:
        check_lists(case, obs)
