"""The codecs of the buffer language are exact over their whole domain."""
import json
import math
import struct
import sys

from vmon import large
from vmon.core import GeneratorError

ID = 'B15'
RULE = ("every integer list type (name x width x byte order), every integer field function and width of 1-12 bytes, floats of "
        "4 and 8 bytes in every byte order as bit patterns and values, text over encoding x padding x strip x justification "
        "x size, JSON documents and raw bytes, each at several offsets; boundary values enumerated, others random; encoded "
        "and decoded results compared with Python's own conversions")
CASES = {'quick': 9000, 'thorough': 800000}
REQUIRE = {'large_codecs': 150, 'ints_encoded': 30000, 'ints_decoded': 40000, 'ints_rejected': 1500, 'list_types': 500, 'floats_encoded': 4000,
           'floats_decoded': 3400, 'nans': 150, 'infinities': 7, 'subnormals': 100, 'floats_rejected': 13,
           'texts_encoded': 1800, 'texts_decoded': 2300, 'text_errors': 100, 'padded_texts': 800, 'json_documents': 700,
           'json_errors': 100, 'byte_strings': 500}

ORDERS = ['native', 'big', 'little']
WIDTHS = [1, 2, 4, 8]


def exhaustive(tier):
    for case in large.cases():
        yield case
    for width in WIDTHS:
        for order in ORDERS:
            for signed in (False, True):
                for variant in range(3):
                    yield {'op': 'ints', 'w': width, 'order': order, 'signed': signed, 'api': 'list', 'variant': variant,
                           'values': edges(width, signed)}
    for width in list(range(1, 13)) + [16, 17, 20, 33]:
        for order in ORDERS:
            for signed in (False, True):
                if signed and width not in WIDTHS:
                    continue
                for api in ('sign', 'name', 'order', 'size'):
                    yield {'op': 'ints', 'w': width, 'order': order, 'signed': signed, 'api': api, 'variant': 0,
                           'values': edges(width, signed)}
    for size in (4, 8):
        for order in ORDERS:
            bits = size * 8
            exp = 8 if size == 4 else 11
            man = bits - 1 - exp
            patterns = []
            for s in (0, 1):
                for e in (0, 1, 2, (1 << exp) // 2, (1 << exp) // 2 - 1, (1 << exp) - 2, (1 << exp) - 1):
                    for m in (0, 1, 2, 1 << (man - 1), (1 << man) - 1):
                        patterns.append((s << (bits - 1)) | (e << man) | m)
            yield {'op': 'floats', 'size': size, 'order': order, 'patterns': patterns, 'values':
                   [0.0, -0.0, 1.5, 0.1, 1e300, -1e300, 3.4028234e38, 3.5e38, 1e-45, 1e-46, 5e-324, float('inf'), float('nan'), 7, -3]}
    for just in ('left', 'right', 'center'):
        for pad in (b' ', b'\0', b'x'):
            for strip in (b'\0', b' ', b'ab', b'x'):
                for size in range(0, 6):
                    for text in ('', 'a', 'ab', 'xax', ' a ', 'a\0', 'abcde', 'a b', 'bxa'):
                        if len(text) <= size:
                            yield {'op': 'text', 'just': just, 'pad': pad, 'strip': strip, 'size': size, 'enc': 'ascii', 'text': text,
                                   'raw': None, 'as': ['field', 'list', 'default'][(len(text) + size) % 3]}


def edges(width, signed):
    top = 8 * width
    out = set()
    for k in range(top + 1):
        for d in (-1, 0, 1):
            out.update([(1 << k) + d, -(1 << k) + d])
    return sorted(out)


def generate(rng, tier):
    r = rng.random()
    if r < 0.35:
        api = rng.choice(['list', 'list', 'sign', 'name', 'order', 'size'])
        width = rng.choice(WIDTHS) if api == 'list' else rng.randint(1, 12 if rng.random() < 0.8 else 40)
        signed = rng.random() < 0.5 and width in WIDTHS
        values = [rng.getrandbits(rng.randint(1, 8 * width)) for _ in range(4)]
        if signed:
            values = [v - (1 << (8 * width - 1)) if rng.random() < .5 else -v >> 1 for v in values]
        return {'op': 'ints', 'w': width, 'order': rng.choice(ORDERS), 'signed': signed, 'api': api, 'variant': rng.randint(0, 2),
                'values': values}
    if r < 0.5:
        size = rng.choice((4, 8))
        pats = [rng.getrandbits(8 * size) for _ in range(3)]
        man = 23 if size == 4 else 52
        pats.append(pats[0] & ~(((1 << (8 * size - 1 - man)) - 1) << man) | rng.choice((0, (1 << (8 * size - 1 - man)) - 1)) << man)
        values = [rng.choice((rng.uniform(-1, 1), rng.gauss(0, 1e10), math.ldexp(rng.random(), rng.randint(-160, 140)),
                              rng.randint(-10 ** 6, 10 ** 6))) for _ in range(3)]
        return {'op': 'floats', 'size': size, 'order': rng.choice(ORDERS), 'patterns': pats, 'values': values}
    if r < 0.78:
        enc = rng.choice(['ascii', 'ascii', 'utf-8', 'latin-1', 'utf-16-le', 'cp037'])
        alphabet = 'ab xyz\0 \t09_' + (u'\xe9\xff' if enc in ('utf-8', 'latin-1', 'utf-16-le') or rng.random() < 0.1 else '') + (
            u'\u05d0\u4e2d\U0001f600' if enc in ('utf-8', 'utf-16-le') else '')
        if rng.random() < 0.15:
            alphabet = alphabet[:4] + u'\udce9\udc80\ud83d'           # halves of characters: no encoding has them
        text = ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 12)))
        size = rng.choice((None, rng.randint(0, 24)))
        raw = None
        if rng.random() < 0.6:
            raw = bytes(bytearray(rng.choice([32, 0, 97, 98, 120, rng.randrange(128), rng.randrange(256)])
                                  for _ in range(rng.randint(0, 14) if size is None else size)))
        return {'op': 'text', 'just': rng.choice(['left', 'right', 'center']), 'pad': rng.choice([b' ', b'\0', b'x', b'\xff']),
                'strip': rng.choice([b'\0', b'', b' ', b'x\0', b'ab']), 'size': size, 'enc': enc, 'text': text, 'raw': raw,
                'as': rng.choice(['field', 'field', 'list']) if size else 'field'}
    if r < 0.92:
        return {'op': 'json', 'value': document(rng, 3), 'room': rng.choice((None, None, rng.randint(0, 40))), 'raw': rng.choice(
            [None, None, b'', b'{', b'[1,]', b'nul', b'"\xff"', b' \t[1, {"a": null}] \n ', b'1e5', b'-0.0', b'"a\\u05d0"', b'truefalse'])}
    return {'op': 'bytes', 'data': bytes(bytearray(rng.getrandbits(8) for _ in range(rng.randint(0, 300)))),
            'kind': rng.choice(['bytes', 'bytearray', 'list', 'tuple']), 'at': rng.randint(0, 5)}


def document(rng, depth):
    r = rng.random()
    if r < 0.25 and depth:
        return [document(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if r < 0.5 and depth:
        return dict((rng.choice(['a', 'b', '', 'key', u'\u05d0', '"', '\\', ' ']), document(rng, depth - 1))
                    for _ in range(rng.randint(0, 4)))
    return rng.choice([None, True, False, 0, -1, 1 << 70, 0.1, -1e300, '', 'text', u'\u4e2d\U0001f600', '\n\t\0"\\/', ' pad ', 'x ' * 5])


def nontrivial(case):
    return True


# -- observation -----------------------------------------------------------------------------------

def bo(order):
    return sys.byteorder if order == 'native' else order


def error():
    from infi.instruct.buffer.buffer import InstructBufferError
    return InstructBufferError


def attempt(f):
    try:
        return f(), None
    except error() as e:
        return None, e


def int_class(case, at):
    from infi.instruct import buffer as B
    w, order, signed, api = case['w'], case['order'], case['signed'], case['api']
    where = B.bytes_ref[at:at + w]
    if api == 'list':
        prefix = {'native': ['', 'n_', ''], 'big': ['b_'] * 3, 'little': ['l_'] * 3}[order][case['variant']]
        t = getattr(B, '%s%sint%d' % (prefix, '' if signed else 'u', w * 8))
        n = [None, 3, 1][case['variant']]
        return type('L', (B.Buffer,), {'x': B.list_field(type=t, n=n, where=B.bytes_ref[at:at + w * (n or 3)])}), n or 3
    if api == 'sign':
        f = B.int_field(sign='signed' if signed else 'unsigned', endian=order, where=where)
    elif api == 'name' and order != 'native':
        f = getattr(B, '%s_%sint_field' % (order[0] + 'e', '' if signed else 'u'))(where=where)
    elif api == 'size' and at + w < 40:
        # The size is written down instead of being taken from the range.
        f = (B.int_field if signed else B.uint_field)(endian=order, where=where, byte_size=w)
    else:
        f = (B.int_field if signed else B.uint_field)(endian=order, where=where)
    return type('I', (B.Buffer,), {'x': f}), None


def check_ints(case, obs):
    w, order, signed = case['w'], bo(case['order']), case['signed']
    at = (w * 3 + case['variant']) % 5
    cls, n = int_class(case, at)
    if n:
        obs.hit('list_types')
    low, high = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    for k, v in enumerate(case['values']):
        if low <= v <= high:
            data = v.to_bytes(w, order, signed=signed)
            values, image = v, data
            if n:
                others = [case['values'][k - j] for j in range(n)]
                values = [u if low <= u <= high else v for u in others]
                image = b''.join(u.to_bytes(w, order, signed=signed) for u in values)
            got, e = attempt(cls(x=values).pack)
            obs.expect(e is None, 'int-encode', "%r was rejected by %r: %s", values, case, e)
            obs.equal(bytes(got), b'\0' * at + image, 'int-encode', "%r as %d bytes %s", values, w, order)
            obs.hit('ints_encoded')
        else:
            values = [v] * n if n else v
            got, e = attempt(cls(x=values).pack)
            obs.expect(e is not None, 'int-reject', "%r was accepted as %d %s bytes: %r", values, w,
                       'signed' if signed else 'unsigned', got)
            obs.hit('ints_rejected')
            data = (v % (1 << (8 * w))).to_bytes(w, 'big')
            image = data * (n or 1)
        want = [int.from_bytes(image[j:j + w], order, signed=signed) for j in range(0, len(image), w)]
        back = cls()
        size = back.unpack(b'\xa5' * at + image + b'\xee' * (k % 3))
        obs.equal(back.x, want if n else want[0], 'int-decode', "%r as %d bytes %s", image, w, order)
        obs.equal(float(size), float(at + len(image)), 'int-size', "the unpacked size")
        obs.hit('ints_decoded')


def check_floats(case, obs):
    from infi.instruct import buffer as B
    size, order = case['size'], bo(case['order'])
    fmt = ('>' if order == 'big' else '<') + ('f' if size == 4 else 'd')
    cls = type('F', (B.Buffer,), {'x': B.float_field(endian=case['order'], where=B.bytes_ref[1:1 + size])})
    for p in case['patterns']:
        data = p.to_bytes(size, order)
        want, = struct.unpack(fmt, data)
        back = cls()
        back.unpack(b'\x7f' + data)
        obs.expect(isinstance(back.x, float), 'float-decode', "%r is a %r", data, type(back.x))
        if want != want:
            obs.expect(back.x != back.x, 'float-decode', "%r is %r instead of a NaN", data, back.x)
            obs.hit('nans')
        else:
            obs.equal(back.x, want, 'float-decode', "%r", data)
            obs.equal(bytes(cls(x=want).pack()), b'\0' + data, 'float-encode', "%r", want)
            obs.hit('infinities' if math.isinf(want) else 'subnormals' if 0 < abs(want) < (1.1e-38 if size == 4 else 2.2e-308)
                    else 'normals')
        obs.hit('floats_decoded')
    for v in case['values']:
        try:
            want = struct.pack(fmt, v)
        except OverflowError:
            got, e = attempt(cls(x=v).pack)
            obs.expect(e is not None, 'float-reject', "%r was packed in %d bytes: %r", v, size, got)
            obs.hit('floats_rejected')
            continue
        obs.equal(bytes(cls(x=v).pack()), b'\0' + want, 'float-encode', "%r", v)
        obs.hit('floats_encoded')
    bad, e = attempt(cls(x='1.0').pack)
    obs.expect(e is not None, 'float-type', "a string was packed as a float: %r", bad)
    for short in range(0, size + 1):
        got, e = attempt(lambda: cls().unpack(b'\0' * short))
        obs.expect((e is None) == (short > size), 'float-short', "%d bytes were accepted", short)
    obs.hit('floats_encoded', 3)
    # a float field in an open range takes four bytes
    anyf = type('F', (B.Buffer,), {'x': B.float_field(endian=case['order'], where=B.bytes_ref[1:])})
    for v in case['values']:
        try:
            want = struct.pack(fmt[0] + 'f', v)
        except OverflowError:
            continue
        obs.equal(bytes(anyf(x=v).pack()), b'\0' + want, 'float-open', "%r", v)
        back = anyf()
        used = back.unpack(b'\x7f' + want)
        obs.expect(v != v or back.x == struct.unpack(fmt[0] + 'f', want)[0], 'float-open', "%r", back.x)
        obs.equal(float(used), 5.0, 'float-open', "the unpacked size")
        obs.hit('floats_in_open_ranges')


def pad_text(raw, size, pad, just):
    if size is None or len(raw) >= size:
        return raw
    extra = size - len(raw)
    if just == 'left':
        return raw + pad * extra
    if just == 'right':
        return pad * extra + raw
    return bytes(raw).center(size, pad)


def strip_text(raw, strip, pad, just):
    for chars in (strip, pad):
        a, b = 0, len(raw)
        if just in ('right', 'center'):
            while a < b and raw[a:a + 1] in [chars[i:i + 1] for i in range(len(chars))]:
                a += 1
        if just in ('left', 'center'):
            while b > a and raw[b - 1:b] in [chars[i:i + 1] for i in range(len(chars))]:
                b -= 1
        raw = raw[a:b]
    return raw


def check_text(case, obs):
    from infi.instruct import buffer as B
    just, pad, strip, size, enc = [case[k] for k in ('just', 'pad', 'strip', 'size', 'enc')]
    options = dict(encoding=enc, padding=pad, strip=strip, justify=just)
    form = case['as']
    if form == 'default':
        options = {}
        just, pad, strip, enc = 'left', b' ', b'\0', 'ascii'
    if form == 'list' and size:
        cls = type('T', (B.Buffer,), {'x': B.list_field(type=B.str_type_factory(byte_size=size, **options),
                                                        where=B.bytes_ref[2:2 + 2 * size])})
        wrap, times = (lambda t: [t, t]), 2
    else:
        cls = type('T', (B.Buffer,), {'x': B.str_field(where=B.bytes_ref[2:] if size is None else B.bytes_ref[2:2 + size],
                                                       **options)})
        wrap, times = (lambda t: t), 1
    try:
        raw = case['text'].encode(enc)
    except UnicodeError:
        got, e = attempt(cls(x=wrap(case['text'])).pack)
        obs.expect(e is not None, 'text-encode', "%r was packed as %s: %r", case['text'], enc, got)
        obs.hit('text_errors')
        raw = None
    if raw is not None and (size is None or len(raw) <= size):
        want = pad_text(raw, size, pad, just)
        if size is not None and len(raw) < size:
            obs.hit('padded_texts')
        got, e = attempt(cls(x=wrap(case['text'])).pack)
        obs.expect(e is None, 'text-encode', "%r was rejected: %s", case['text'], e)
        want_all = b'\0\0' + want * times
        obs.expect(bytes(got) == want_all or not (size or raw), 'text-encode', "%r with %r is %r, not %r", case['text'], options,
                   bytes(got), want_all)
        obs.hit('texts_encoded')
        image = want
    else:
        image = case['raw'] if case['raw'] is not None else b''
    for data in [image] + ([case['raw']] if case['raw'] is not None else []):
        if size is not None and len(data) != size:
            continue
        stripped = data if size == 0 else strip_text(data, strip, pad, just)
        back = cls()
        try:
            text = stripped.decode(enc)
        except UnicodeError:
            got, e = attempt(lambda: back.unpack(b'\1\2' + data * times))
            obs.expect(e is not None and e.attr_name == 'x', 'text-decode', "%r was unpacked as %s: %r", data, enc, getattr(back, 'x', None))
            obs.hit('text_errors')
            continue
        back.unpack(b'\1\2' + data * times)
        obs.equal(back.x, wrap(text), 'text-decode', "%r with %r", data, options)
        obs.hit('texts_decoded')
    if size:
        got, e = attempt(lambda: cls().unpack(b'\1\2' + b'a' * (size - 1)))
        obs.expect(e is not None or times == 2 and size == 1, 'text-short', "%d bytes were accepted for a text of %d", size - 1, size)


def check_json(case, obs):
    from infi.instruct import buffer as B
    value = case['value']
    text = json.dumps(value).encode('ascii')
    room = case['room']
    if room is not None:
        room += len(text)
    cls = type('J', (B.Buffer,), {'x': B.json_field(where=B.bytes_ref[1:] if room is None else B.bytes_ref[1:1 + room])})
    want = text if room is None else text.ljust(room)
    obs.equal(bytes(cls(x=value).pack()), b'\0' + want, 'json-encode', "%r", value)
    back = cls()
    back.unpack(b'\0' + want)
    obs.equal(back.x, value, 'json-decode', "%r", want)
    back = cls()
    back.unpack(b'\0' + (text if room is None else text.ljust(room, b'\0')))
    obs.equal(back.x, value, 'json-decode', "%r filled up with zeros", text)
    obs.hit('json_documents')
    for bad in (set(), b'bytes', object, [1, {2: set()}], {(1, 2): 3}, [{'a': {b'key': 1, 'b': 2}}], {frozenset(): None}):
        got, e = attempt(cls(x=bad).pack)
        obs.expect(e is not None and e.attr_name == 'x', 'json-type', "%r was packed as JSON", bad)
    raw = case['raw']
    if raw is not None and (room is None or len(raw) <= room):
        raw = raw if room is None else raw.ljust(room)
        back = cls()
        try:
            want = json.loads(raw.decode('ascii').strip(' \t\r\n\0'))
        except ValueError:
            got, e = attempt(lambda: back.unpack(b'\0' + raw))
            obs.expect(e is not None and e.attr_name == 'x', 'json-decode', "%r was accepted", raw)
            obs.hit('json_errors')
            return
        back.unpack(b'\0' + raw)
        obs.equal(back.x, want, 'json-decode', "%r", raw)


def check_bytes(case, obs):
    from infi.instruct import buffer as B
    data, at = case['data'], case['at']
    n = len(data)
    content = {'bytes': data, 'bytearray': bytearray(data), 'list': list(bytearray(data)), 'tuple': tuple(bytearray(data))}[case['kind']]
    for stop in (None, at + n):
        cls = type('R', (B.Buffer,), {'x': B.bytearray_field(where=B.bytes_ref[at:stop])})
        got = bytes(cls(x=content).pack())
        if n:
            obs.equal(got, b'\0' * at + data, 'bytes-encode', "%r", content)
        back = cls()
        back.unpack(b'\xff' * at + data + (b'tail' if stop is not None else b''))
        obs.expect(isinstance(back.x, bytearray) and bytes(back.x) == data, 'bytes-decode', "%r is %r", data, back.x)
        obs.hit('byte_strings')
    if n:
        for bad in (content[:-1], None, 'x' * n, [256] * n):
            got, e = attempt(cls(x=bad).pack)
            obs.expect(e is not None and e.attr_name == 'x', 'bytes-type', "%r was packed into %d bytes: %r", bad, n, got)


def check(case, obs):
    if 'large' in case:
        large.check_codecs(case['large'], obs)
        return
    op = case['op']
    if op not in ('ints', 'floats', 'text', 'json', 'bytes'):
        raise GeneratorError(op)
    globals()['check_' + op](case, obs)
