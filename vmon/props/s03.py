"""Bit fields occupy exactly their declared bits."""
from vmon import structgen
from vmon import structmodel as M

ID = 'S03'
RULE = ("bit groups: every way of dividing one byte x all 256 values, every (offset, width) up to 9 x 72 (thorough: 17 x 72) with walking bits, every positional "
        "slice in 24 bits and every pair of slices in 12 bits, random groups of up to 12 bytes with constants, flags, padding and defaults, "
        "plain, lazy and nested; each bit of the input is flipped and each field assigned in turn")
CASES = {'quick': 1300, 'thorough': 300000}
REQUIRE = {'long_groups': 8, 'bits_flipped': 40000, 'fields_assigned': 3000, 'decoded': 40000, 'encoded': 40000, 'positional': 900, 'in_lazy': 120, 'nested': 180,
           'wide_values': 8000, 'rejected_boundary': 40, 'rejected_const': 400, 'rejected_short': 3000, 'defaults': 120}


def compositions(n):
    if n == 0:
        yield []
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield [first] + rest


def seq(widths):
    return {'k': 'bits', 'fields': [{'k': 'bit', 'name': 'f%d' % i, 'size': w} if w > 0 else {'k': 'bpad', 'size': -w}
                                    for i, w in enumerate(widths) if w]}


def exhaustive(tier):
    for widths in compositions(8):
        yield {'what': 'all', 'group': seq(widths)}
    for offset in range(17 if tier == 'thorough' else 9):
        group = []
        for width in range(1, 73):
            rest = -(offset + width) % 8
            group.append([-offset, width, -rest])
            if len(group) == 12:
                yield {'what': 'walk', 'groups': [seq(g) for g in group]}
                group = []
    for total, big in ((33, 1), (64, 1), (65, 2), (130, 3)):
        for lead in (0, 3):
            # Long groups of small fields, and of larger ones here and there.
            widths = [-lead] if lead else []
            while sum(map(abs, widths)) < 8 * total - 80:
                i = len(widths)
                widths.append(1 + i * 5 % 7 if i % 20 else 8 * big + i % 19)
            widths.append(-(-sum(map(abs, widths)) % 8) or -8)
            yield {'what': 'long', 'group': seq(widths), 'seed': total + lead}
    for start in range(24):
        yield {'what': 'walk', 'groups': [whole([[start, stop]], 24) for stop in range(start + 1, 25)]}
    step = 1 if tier == 'thorough' else 3
    pairs = []
    for a in range(12):
        for b in range(a + 1, 13):
            for c in range(b, 12):
                for d in range(c + 1, 13):
                    pairs.append([[a, b], [c, d]])
                    pairs.append([[c, d], [a, b]])
    pairs = pairs[::step]
    for i in range(0, len(pairs), 20):
        yield {'what': 'walk', 'groups': [whole(p, 16) for p in pairs[i:i + 20]]}
    for n in (1, 3, 7, 9, 12, 15, 17, 63, 65):
        yield {'what': 'boundary', 'widths': [n], 'pos': False}
        yield {'what': 'boundary', 'widths': [1] * n, 'pos': False}
        yield {'what': 'boundary', 'widths': [n], 'pos': True}


def whole(slices, total):
    """A positional field and one more for the last bits, so that there are `total` of them."""
    rest = [i for i in range(total) if not any(a <= i < b for a, b in slices)]
    fields = [{'name': 'x', 'slices': slices}]
    if rest and rest[-1] == total - 1:
        start = total - 1
        while start - 1 in rest:
            start -= 1
        fields.append({'name': 'y', 'slices': [[start, total]]})
    return {'k': 'pos', 'fields': fields}


def generate(rng, tier):
    g = structgen.Gen(rng)
    state = {'names': structgen.WORDS[:], 'prior': [], 'fixed': True}
    rng.shuffle(state['names'])
    if rng.random() < 0.04:
        widths = [rng.randint(1, 20) for _ in range(rng.randint(1, 5))]
        if sum(widths) % 8:
            return {'what': 'boundary', 'widths': widths, 'pos': rng.random() < 0.3}
    return {'what': 'random', 'group': g.bits(state) if rng.random() < 0.6 else g.pos(state),
            'where': rng.choice(('plain', 'plain', 'lazy', 'nested', 'array')), 'seed': rng.getrandbits(32), 'style': rng.getrandbits(16)}


def check(case, obs):
    import random
    what = case['what']
    if what == 'boundary':
        return check_boundary(case, obs)
    if what == 'all':
        return check_group(case['group'], obs, [bytes(bytearray([i])) for i in range(256)], [])
    if what == 'walk':
        for group in case['groups']:
            n = M.bit_layout(group)[1] // 8
            inputs = [b'\0' * n, b'\xff' * n, bytes(bytearray((i * 73 + 41) & 255 for i in range(n)))]
            inputs += [bytes(bytearray(1 << (i & 7) if j == i >> 3 else 0 for j in range(n))) for i in range(8 * n)]
            check_group(group, obs, inputs, [])
        return
    rng = random.Random(case['seed'])
    group = case['group']
    if what == 'long':
        obs.hit('long_groups')
        n = M.bit_layout(group)[1] // 8
        return check_group(group, obs, [b'\0' * n, b'\xff' * n] + [bytes(bytearray(rng.getrandbits(8) for _ in range(n))) for _ in range(2)], [])
    layout, total = M.bit_layout(group)
    n = total // 8
    inputs = []
    for _ in range(8):
        data = bytearray(rng.choice((0, 255, rng.getrandbits(8), rng.getrandbits(8))) for _ in range(n))
        inputs.append(bytes(data))
    values = []
    for _ in range(3):
        values.append(dict((x['name'], rng.choice((rng.getrandbits(len(w) or 1), rng.getrandbits(len(w) + 9), -rng.getrandbits(len(w) + 1),
                                                   (1 << len(w)), -1))) for x, w in layout if 'name' in x and 'value' not in x))
    check_group(group, obs, inputs, values, case['where'], case['style'], rng)


def place(group, where):
    """(the struct's spec, bytes before, bytes after, how to get at the object with the bits)"""
    u8 = ['num', 'UBInt8']
    inner = {'name': 'Inner', 'fields': [{'k': 'f', 'name': '_head', 'm': u8}, group, {'k': 'f', 'name': '_tail', 'm': u8}]}
    if where == 'plain':
        return inner, b'', b'', lambda o: o
    if where == 'lazy':
        return {'name': 'Outer', 'fields': [{'k': 'lazy', 'fields': inner['fields']}]}, b'', b'', lambda o: o
    if where == 'nested':
        return {'name': 'Outer', 'fields': [{'k': 'f', 'name': '_n', 'm': u8}, {'k': 'f', 'name': '_in', 'm': ['struct', inner]}]}, \
            b'\x11', b'', lambda o: o._in
    return {'name': 'Outer', 'fields': [{'k': 'f', 'name': '_in', 'm': ['farr', 1, ['struct', inner]]}, {'k': 'pad', 'size': 1,
                                                                                                     'char': b'p'}]}, \
        b'', b'p', lambda o: o._in[0]


def bits_model(group, data):
    """{name: value}, or None if a constant differs"""
    out = {}
    try:
        M.decode_field(group, M.Reader(data), out, M.TOP)
    except M.ModelError as e:
        assert e.kind == 'const', e
        return None
    return out


def canonical(group, data):
    """What is written for the values in data: bits of no field are 0."""
    layout, total = M.bit_layout(group)
    keep = [0] * (total // 8)
    for x, where in layout:
        if 'name' in x:
            for i in where:
                keep[i >> 3] |= 1 << (i & 7)
    return bytes(bytearray(a & b for a, b in zip(bytearray(data), keep)))


def with_consts(group, data):
    data = bytearray(data)
    for x, where in M.bit_layout(group)[0]:
        if 'value' in x:
            for i, p in enumerate(where):
                data[p >> 3] = data[p >> 3] & ~(1 << (p & 7)) | (x['value'] >> i & 1) << (p & 7)
    return bytes(data)


def check_group(group, obs, inputs, values, where='plain', style=0, rng=None):
    layout, total = M.bit_layout(group)
    spec, before, after, get = place(group, where)
    b = M.Builder(style)
    cls = b.build(spec)
    head, tail = before + b'\x5a', b'\xa5' + after
    obs.hit('positional' if group['k'] == 'pos' else 'sequential')
    obs.hit('in_lazy' if where == 'lazy' else 'nested' if where in ('nested', 'array') else 'plain')
    names = [x['name'] for x, w in layout if 'name' in x]
    free = [(x, w) for x, w in layout if 'name' in x and 'value' not in x]
    size = len(head) + total // 8 + len(tail)
    obs.equal([tuple(cls.min_max_sizeof()), M.fixed_size(cls)], [(size, size), True], 'size', "%r", group)

    def read(data):
        obj = cls.create_from_string(head + data + tail)
        o = get(obj)
        out = dict((n, getattr(o, n)) for n in names)
        if o._head != 0x5a or o._tail != 0xa5:
            obs.fail('neighbours', "reading %r of %r changes the fields around it" % (data, group))
        return obj, o, out

    for data in inputs:
        for data in ((data, with_consts(group, data)) if with_consts(group, data) != data else (data,)):
            want = bits_model(group, data)
            if want is None:
                try:
                    out = read(data)
                except Exception:
                    obs.hit('rejected_const')
                    continue
                obs.fail('const', "%r of %r is read as %r" % (data, group, out[2]))
            obj, o, got = read(data)
            obs.equal(got, want, 'decode', "%r of %r", data, group)
            obs.hit('decoded')
            wire = cls.write_to_string(obj)
            obs.equal(wire, head + canonical(group, data) + tail, 'encode', "what was read from %r of %r", data, group)
            fresh = b.make(spec, around(spec, where, want), style & 1)
            obs.equal(cls.write_to_string(fresh), head + canonical(group, data) + tail, 'encode', "%r of %r", want, group)
            obs.equal(cls.sizeof(fresh), size, 'size', "%r of %r", want, group)
            obs.hit('encoded')
    # short input
    data = with_consts(group, inputs[0])
    for n in range(len(head) + total // 8):
        try:
            obj = cls.create_from_string((head + data)[:n])
            o = get(obj)
            [getattr(o, n) for n in names]
        except Exception:
            obs.hit('rejected_short')
            continue
        obs.fail('short', "%d bytes of %r are read" % (n, group))
    # each input bit changes the field that it is in, and no other
    data = with_consts(group, inputs[-1])
    base = read(data)[2]
    owner = dict((p, (x, i)) for x, w in layout for i, p in enumerate(w))
    for p in range(total):
        changed = bytearray(data)
        changed[p >> 3] ^= 1 << (p & 7)
        x, i = owner.get(p, ({}, 0))
        if 'value' in x:
            continue
        got = read(bytes(changed))[2]
        want = dict(base)
        if 'name' in x:
            want[x['name']] ^= 1 << i
        obs.equal(got, want, 'flip', "bit %d of %r of %r flipped", p, data, group)
        obs.hit('bits_flipped')
    # each assignment changes the field's own bits, and no other
    obj, o, got = read(data)
    now = bytearray(canonical(group, data))
    for x, w in free:
        v = (base[x['name']] ^ ((1 << len(w)) - 1)) if len(w) < 3 or rng is None else rng.getrandbits(len(w))
        setattr(o, x['name'], v)
        for i, p in enumerate(w):
            now[p >> 3] = now[p >> 3] & ~(1 << (p & 7)) | (v >> i & 1) << (p & 7)
        obs.equal(cls.write_to_string(obj), head + bytes(now) + tail, 'assign', "%s of %r set to %r", x['name'], group, v)
        obs.hit('fields_assigned')
        # a value that is too wide for the field stays within it
        for wide in (v | 1 << len(w), v | (0xa5 << len(w)), v - (1 << len(w))):
            setattr(o, x['name'], wide)
            try:
                wire = cls.write_to_string(obj)
            except Exception:
                continue
            others = list(now)
            wire = bytearray(wire[len(head):len(wire) - len(tail)])
            for i, p in enumerate(w):
                wire[p >> 3] &= ~(1 << (p & 7))
                others[p >> 3] &= ~(1 << (p & 7))
            obs.equal(list(wire), others, 'spill', "%s of %r set to %r changes other bits", x['name'], group, wide)
            obs.hit('wide_values')
        setattr(o, x['name'], v)
        if cls.write_to_string(obj) != head + bytes(now) + tail:
            obs.fail('assign', "%s of %r set back to %r" % (x['name'], group, v))
    for v in values:
        want = M.encode_field(group, v, M.TOP)
        try:
            wire = cls.write_to_string(b.make(spec, around(spec, where, v), 0))
        except Exception:
            continue
        obs.equal(wire, head + want + tail, 'mask', "%r of %r", v, group)
    # defaults
    if any('default' in x for x, w in free) and where != 'array':
        v = dict((x['name'], x.get('default', 1)) for x, w in free)
        given = dict((x['name'], 1) for x, w in free if 'default' not in x)
        wire = cls.write_to_string(b.make(spec, around(spec, where, given), 0))
        obs.equal(wire, head + M.encode_field(group, v, M.TOP) + tail, 'default', "defaults of %r", group)
        obs.hit('defaults')


def around(spec, where, values):
    values = dict(values, _head=0x5a, _tail=0xa5)
    if where == 'nested':
        return {'_n': 0x11, '_in': values}
    if where == 'array':
        return {'_in': [values]}
    return values


def check_boundary(case, obs):
    import infi.instruct as I
    if case['pos'] and sum(case['widths']) % 8:
        out, at = [], 0
        for i, w in enumerate(case['widths']):
            out.append(I.BitField('f%d' % i, slice(at, at + w)))
            at += w
    else:
        out = [I.BitField('f%d' % i, w) for i, w in enumerate(case['widths'])]
    try:
        group = I.BitFields(*out)
        cls = type(I.Struct)('S', (I.Struct,), {'_fields_': [group]})
    except Exception:
        obs.hit('rejected_boundary')
        return
    obs.fail('boundary', "bit fields of %r bits are accepted with a size of %r" % (case['widths'], cls.min_max_sizeof()))
