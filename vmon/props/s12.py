"""Strings, arrays, mappings and padding keep their content exactly at every length."""
import io
import itertools

from vmon.core import GeneratorError, same

ID = 'S12'
RULE = ("enumerated: every string over padding characters and others up to one more than the size, for every size up to 4, "
        "padding, direction and length type, written, measured and read; every image of that size read; every element count "
        "around the limits of each length type; every mapping direction; random: longer strings, arrays of strings and of "
        "arrays, mappings with arbitrary keys, all used alone, as a field and as an element, at an offset of a longer stream")
CASES = {'quick': 5000, 'thorough': 250000}
REQUIRE = {'strings_written': 9000, 'strings_read': 14000, 'too_long': 4000, 'arrays_written': 5000, 'arrays_read': 5000,
           'wrong_counts': 1500, 'mappings': 4500, 'unmapped': 5000, 'paddings': 300, 'length_limits': 140, 'negative_lengths': 20, 'short_inputs': 14000,
           'unpaddable': 150}

LENGTHS = {'UBInt8': (1, 'big', False), 'UBInt16': (2, 'big', False), 'ULInt16': (2, 'little', False), 'UBInt32': (4, 'big', False),
           'ULInt64': (8, 'little', False), 'SBInt8': (1, 'big', True), 'SLInt16': (2, 'little', True)}
PADS = [b'\0', b' ', b' \0', b'\xff', b'a']
OTHERS = [b'a', b'b']
DIRECTIONS = ('NONE', 'RIGHT', 'LEFT', 'BOTH')


def exhaustive(tier):
    top = 4 if tier == 'quick' else 6
    for d in DIRECTIONS:
        for p in range(len(PADS)):
            for n in range(top + 1):
                yield {'op': 'padded', 'n': n, 'dir': d, 'pad': p}
            for length in sorted(LENGTHS):
                yield {'op': 'var', 'length': length, 'dir': d, 'pad': p, 'top': top if length == 'UBInt8' else 2}
    for n in range(top + 2):
        yield {'op': 'buffer', 'n': n}
        for elem in ELEMENTS:
            yield {'op': 'array', 'kind': 'fixed', 'n': n, 'elem': elem}
    for length in sorted(LENGTHS):
        for elem in ELEMENTS:
            for kind in ('var', 'sum'):
                yield {'op': 'array', 'kind': kind, 'n': 5, 'elem': elem, 'length': length}
        yield {'op': 'limits', 'length': length}
    for n in list(range(40)) + [127, 128, 255, 256, 257, 1000, 1024, 1025, 4096, 5000, 65536, 70001]:
        yield {'op': 'padding', 'n': n}


def generate(rng, tier):
    r = rng.random()
    if r < 0.35:
        n = rng.choice((rng.randint(0, 12), rng.randint(0, 300)))
        pad = rng.choice(PADS)
        make = lambda k: bytes(bytearray(rng.choice(list(bytearray(pad)) + [97, 98, rng.randrange(256)]) for _ in range(k)))
        return {'op': 'one-string', 'kind': rng.choice(['padded', 'var', 'buffer', 'varbuffer']), 'n': n, 'pad': pad,
                'dir': rng.choice(DIRECTIONS), 'length': rng.choice(sorted(LENGTHS)),
                'values': [make(rng.choice((n, n, rng.randint(0, n), n + 1, rng.randint(0, 3)))) for _ in range(4)],
                'images': [make(n) for _ in range(3)], 'lead': rng.randint(0, 5)}
    if r < 0.7:
        return {'op': 'one-array', 'kind': rng.choice(['fixed', 'var', 'sum']), 'elem': rng.choice(ELEMENTS + ['nested', 'struct']),
                'length': rng.choice(sorted(LENGTHS)), 'n': rng.choice((0, 1, 2, rng.randint(0, 20))), 'seed': rng.getrandbits(30),
                'lead': rng.randint(0, 5)}
    size = rng.choice((1, 1, 2, 4))
    keys = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(['on', 'off', u'\xe9', '', 3, -1, 1 << 70, 2.5, None, b'bytes', (1, 2), ('a', None), True, False, 'k%d' % rng.randint(0, 9)])
        if not any(k == x for x in keys):
            keys.append(k)
    values = []
    while len(values) < len(keys):
        v = rng.choice((0, 1, rng.getrandbits(8 * size), rng.randint(0, 20))) % (1 << (8 * size))
        if v not in values:
            values.append(v)
    return {'op': 'mapping', 'size': size, 'order': rng.choice(['B', 'L']), 'keys': keys, 'values': values,
            'probe': [rng.getrandbits(8 * size), 0, 255], 'lead': rng.randint(0, 5)}


def nontrivial(case):
    return case['op'] not in ('padding', 'limits')


# -- the reference ---------------------------------------------------------------------------------

def strip(s, d, pad):
    a, b = 0, len(s)
    chars = bytearray(pad)
    s2 = bytearray(s)
    if d in ('LEFT', 'BOTH'):
        while a < b and s2[a] in chars:
            a += 1
    if d in ('RIGHT', 'BOTH'):
        while b > a and s2[b - 1] in chars:
            b -= 1
    return bytes(s2[a:b])


def padded(s, n, d, pad):
    """The image of s in n bytes, or None if there is none."""
    s = strip(s, d, pad)
    if len(s) > n:
        return None
    missing = n - len(s)
    if not missing:
        return s
    if d == 'NONE':
        return None
    fill = pad[0:1] * missing
    return fill + s if d == 'LEFT' else s + fill


def number(v, length):
    size, order, signed = LENGTHS[length]
    try:
        return v.to_bytes(size, order, signed=signed)
    except OverflowError:
        return None


ELEMENTS = ['u8', 'u16', 's32', 'str', 'pad', 'map', 'vstr']
ELEMENT_SIZE = {'u8': 1, 'u16': 2, 's32': 4, 'str': 3, 'pad': 2, 'map': 1, 'vstr': None}
NAMES = {'red': 0, 'green': 7, None: 255}


def element(elem, k):
    """-> (value, its image, the value read back)."""
    if elem == 'u8':
        v = (k * 37 + 5) % 256
        return v, bytes(bytearray([v])), v
    if elem == 'u16':
        v = (k * 257 + 3) % 65536
        return v, v.to_bytes(2, 'big'), v
    if elem == 's32':
        v = k * 1000003 % (1 << 32) - (1 << 31)
        return v, v.to_bytes(4, 'little', signed=True), v
    if elem == 'str':
        v = [b'', b'abc', b'x', b'\0a'][k % 4]
        return v, v.ljust(3, b'\0'), v
    if elem == 'pad':
        return None, b'\0\0', None
    if elem == 'map':
        v = ['red', 'green', None][k % 3]
        return v, bytes(bytearray([NAMES[v]])), v
    v = b'y' * (k * 7 % 5)
    return v, bytes(bytearray([len(v)])) + v, v


# -- the real marshals -----------------------------------------------------------------------------

def library():
    import infi.instruct as I
    from infi.instruct import macros
    return macros


def element_marshal(elem, L):
    from infi.instruct.base import MinMax
    from infi.instruct.padding import BytePaddingMarshal
    if elem == 'u8':
        return L.UBInt8
    if elem == 'u16':
        return L.UBInt16
    if elem == 's32':
        return L.SLInt32
    if elem == 'str':
        return L.PaddedStringMarshal(3)
    if elem == 'pad':
        return BytePaddingMarshal(2)
    if elem == 'map':
        return L.FixedSizeMappingMarshal(dict(NAMES), L.UBInt8)
    return L.VarSizeStringMarshal(L.UBInt8)


def direction(L, d):
    return getattr(L, 'PADDING_DIRECTION_' + d)


class Used(object):
    """A marshal used in one of the ways a user can: alone, as the field of a struct, in an array of one."""

    def __init__(self, L, marshal, field, how, lead):
        self.L, self.marshal, self.how, self.lead = L, marshal, how, lead
        if how == 'field':
            self.cls = type('S', (L.Struct,), {'_fields_': [field]})
        elif how == 'element':
            self.array = L.FixedSizeArrayMarshal(1, marshal)

    def write(self, v):
        s = io.BytesIO(b'#' * self.lead)
        s.seek(self.lead)
        if self.how == 'field':
            obj = self.cls(x=v)
            self.cls.write_to_stream(obj, s)
        elif self.how == 'element':
            self.array.write_to_stream([v], s)
        else:
            self.marshal.write_to_stream(v, s)
        out = s.getvalue()
        assert out[:self.lead] == b'#' * self.lead
        return out[self.lead:]

    def sizeof(self, v):
        if self.how == 'field':
            return self.cls.sizeof(self.cls(x=v))
        if self.how == 'element':
            return self.array.sizeof([v])
        return self.marshal.sizeof(v)

    def read(self, data, tail=b''):
        """-> (value, bytes taken)."""
        s = io.BytesIO(b'#' * self.lead + data + tail)
        s.seek(self.lead)
        if self.how == 'field':
            v = self.cls.create_from_stream(s).x
        elif self.how == 'element':
            v, = self.array.create_from_stream(s)
        else:
            v = self.marshal.create_from_stream(s)
        return v, s.tell() - self.lead

    def min_max(self):
        m = {'field': getattr(self, 'cls', None), 'element': getattr(self, 'array', None)}.get(self.how) or self.marshal
        mm = m.min_max_sizeof()
        return mm.min, mm.max


WAYS = ('alone', 'field', 'element')


def attempt(f, *args):
    try:
        return f(*args), None
    except Exception as e:                       # noqa: any refusal counts
        return None, e


def check_string_value(used, v, want, back, obs, what):
    from infi.instruct.errors import InstructError
    got, err = attempt(used.write, v)
    if want is None:
        obs.hit('too_long')
        obs.expect(err is not None, 'accepted', "%r was written as %r by %s", v, got, what)
        obs.expect(isinstance(err, InstructError), 'error', "writing %r with %s fails with %r", v, what, err)
        return
    obs.hit('strings_written')
    obs.expect(err is None, 'rejected', "%r was not written by %s: %s", v, what, err)
    obs.equal(got, want, 'string-written', "%r written by %s", v, what)
    obs.equal(used.sizeof(v), len(want), 'string-size', "size of %r with %s", v, what)
    read, n = used.read(want, b'\0 ab')
    obs.equal(read, back, 'string-read', "%r read by %s", want, what)
    obs.expect(type(read) is bytes, 'string-type', "%s reads a %r", what, type(read))
    obs.equal(n, len(want), 'string-taken', "bytes of %r taken by %s", want, what)
    obs.hit('strings_read')
    lo, hi = used.min_max()
    obs.expect(lo <= len(want) <= hi, 'min-max', "%d bytes are not within %d..%d of %s", len(want), lo, hi, what)


def all_strings(pad, top):
    chars = [pad[i:i + 1] for i in range(len(pad))] + [c for c in OTHERS if c not in pad][:1 if len(pad) > 1 else 2]
    for k in range(top + 1):
        for t in itertools.product(chars, repeat=k):
            yield b''.join(t)


def padded_field(L, n, pad, d, default=None):
    return L.PaddedString('x', n, pad, direction(L, d), default)


def check_padded(case, obs):
    L = library()
    n, d, pad = case['n'], case['dir'], PADS[case['pad']]
    marshal = L.PaddedStringMarshal(n, padding=pad, padding_direction=direction(L, d))
    uses = [Used(L, marshal, padded_field(L, n, pad, d), how, k) for k, how in enumerate(WAYS)]
    what = "a string of %d padded %s with %r" % (n, d, pad)
    for k, v in enumerate(all_strings(pad, n + 1)):
        used = uses[k % 3]
        want = padded(v, n, d, pad)
        if want is None and len(strip(v, d, pad)) < n:
            obs.hit('unpaddable')
        check_string_value(used, v, want, strip(v, d, pad), obs, what)
        if len(v) == n:
            got, taken = used.read(v, b'tail')
            obs.equal(got, strip(v, d, pad), 'string-read', "%r read by %s", v, what)
            obs.equal(taken, n, 'string-taken', "bytes taken by %s", what)
            obs.hit('strings_read')
        elif len(v) < n:
            short(used, v, obs, what)
    lo, hi = uses[0].min_max()
    obs.equal((lo, hi), (n, n), 'min-max', "size of %s", what)
    too_long = attempt(padded_field, L, n, pad, d, b'q' * (n + 1))[1]
    obs.expect(too_long is not None, 'default', "a default of %d bytes was accepted by %s", n + 1, what)
    cls = type('D', (L.Struct,), {'_fields_': [padded_field(L, n, pad, d, b'q' * n)]})
    obs.equal(cls.write_to_string(cls()), b'q' * n, 'default', "default of %s", what)


def short(used, data, obs, what):
    from infi.instruct.errors import InstructError
    got, err = attempt(used.read, data)
    obs.hit('short_inputs')
    obs.expect(err is not None, 'short', "%s was read from only %r: %r", what, data, got)
    obs.expect(isinstance(err, (InstructError, EOFError, IOError)), 'error', "reading %s from %r fails with %r", what, data, err)


def check_var(case, obs):
    L = library()
    d, pad, length = case['dir'], PADS[case['pad']], case['length']
    lm = getattr(L, length)
    marshal = L.VarSizeStringMarshal(lm, padding=pad, padding_direction=direction(L, d))
    field = L.VarSizeString('x', lm, pad, direction(L, d))
    uses = [Used(L, marshal, field, how, k) for k, how in enumerate(WAYS)]
    what = "a string with %s length padded %s with %r" % (length, d, pad)
    for k, v in enumerate(all_strings(pad, case['top'])):
        used = uses[k % 3]
        s = strip(v, d, pad)
        check_string_value(used, v, number(len(s), length) + s, s, obs, what)
        got, taken = used.read(number(len(v), length) + v, b'\0 ab')
        obs.equal(got, s, 'string-read', "%r read by %s", v, what)
        obs.equal(taken, len(v) + LENGTHS[length][0], 'string-taken', "bytes of %r taken by %s", v, what)
        short(used, number(len(v) + 1, length) + v, obs, what)
        short(used, number(len(v), length)[:-1], obs, what)


def check_buffer(case, obs):
    L = library()
    n = case['n']
    for k, how in enumerate(WAYS):
        used = Used(L, L.FixedSizeBufferMarshal(n), L.FixedSizeBuffer('x', n), how, k)
        what = "a buffer of %d bytes" % n
        for v in all_strings(b'\0 ', min(n + 1, 5)):
            check_string_value(used, v, v if len(v) == n else None, v, obs, what)
            if len(v) < n:
                short(used, v, obs, what)
        var = Used(L, L.VarSizeBufferMarshal(L.UBInt16), L.VarSizeBuffer('x', L.UBInt16), how, k)
        for v in all_strings(b'\0 ', min(n, 4)):
            check_string_value(var, v, number(len(v), 'UBInt16') + v, v, obs, "a buffer with a length")


def check_one_string(case, obs):
    L = library()
    kind, n, d, pad, length = case['kind'], case['n'], case['dir'], case['pad'], case['length']
    lm = getattr(L, length)
    if kind in ('buffer', 'varbuffer'):
        d, pad = 'NONE', b''
    make = {'padded': (lambda: L.PaddedStringMarshal(n, pad, direction(L, d)), lambda: padded_field(L, n, pad, d)),
            'var': (lambda: L.VarSizeStringMarshal(lm, pad, direction(L, d)), lambda: L.VarSizeString('x', lm, pad, direction(L, d))),
            'buffer': (lambda: L.FixedSizeBufferMarshal(n), lambda: L.FixedSizeBuffer('x', n)),
            'varbuffer': (lambda: L.VarSizeBufferMarshal(lm), lambda: L.VarSizeBuffer('x', lm))}[kind]
    used = Used(L, make[0](), make[1](), WAYS[n % 3], case['lead'])
    what = "%s %d %s %r %s" % (kind, n, d, pad, length)
    for v in case['values']:
        s = strip(v, d, pad)
        if kind in ('padded', 'buffer'):
            want = padded(v, n, d, pad)
        else:
            want = number(len(s), length)
            want = None if want is None else want + s
        check_string_value(used, v, want, s, obs, what)
        if want and len(want) > 1:
            short(used, want[:-1], obs, what)
    for v in case['images']:
        image = v if kind in ('padded', 'buffer') else None if number(len(v), length) is None else number(len(v), length) + v
        if image is not None:
            got, taken = used.read(image, v[:2])
            obs.equal(got, strip(v, d, pad), 'string-read', "%r read by %s", image, what)
            obs.equal(taken, len(image), 'string-taken', "bytes taken by %s", what)
            obs.hit('strings_read')


def array_marshal(L, kind, n, length, em):
    if kind == 'fixed':
        return L.FixedSizeArrayMarshal(n, em), L.FixedSizeArray('x', n, em)
    lm = getattr(L, length)
    if kind == 'var':
        return L.VarSizeArrayMarshal(lm, em), L.VarSizeArray('x', lm, em)
    return L.SumSizeArrayMarshal(lm, em), L.SumSizeArray('x', lm, em)


def check_array_value(used, kind, n, length, items, obs, what):
    """items: [(value, image, value read back)]"""
    from infi.instruct.errors import InstructError
    values = [v for v, i, b in items]
    body = b''.join(i for v, i, b in items)
    head = b''
    if kind == 'var':
        head = number(len(items), length)
    elif kind == 'sum':
        head = number(len(body), length)
    got, err = attempt(used.write, list(values))
    if kind == 'fixed' and len(items) != n or head is None:
        obs.hit('wrong_counts')
        obs.expect(err is not None, 'accepted', "%d elements were written as %r by %s", len(items), got, what)
        obs.expect(isinstance(err, InstructError), 'error', "writing %d elements with %s fails with %r", len(items), what, err)
        return
    image = head + body
    obs.hit('arrays_written')
    obs.expect(err is None, 'rejected', "%r was not written by %s: %s", values, what, err)
    obs.equal(got, image, 'array-written', "%r written by %s", values, what)
    obs.equal(used.sizeof(tuple(values)), len(image), 'array-size', "size of %r with %s", values, what)
    read, taken = used.read(image, b'\1\0\2')
    obs.equal(read, [b for v, i, b in items], 'array-read', "%r read by %s", image, what)
    obs.expect(type(read) is list, 'array-type', "%s reads a %r", what, type(read))
    obs.equal(taken, len(image), 'array-taken', "bytes taken by %s", what)
    obs.hit('arrays_read')
    lo, hi = used.min_max()
    obs.expect(lo <= len(image), 'min-max', "%d bytes are fewer than the minimum %d of %s", len(image), lo, what)
    if image:
        got, err = attempt(used.read, image[:-1])
        obs.hit('short_inputs')
        obs.expect(err is not None, 'short', "%s was read from only %r: %r", what, image[:-1], got)
    if kind == "sum" and items and len(items[-1][1]) > 1:
        # A total that ends within an element contradicts the elements.
        head = number(len(body) - 1, length)
        got, err = attempt(used.read, head + body)
        obs.expect(err is not None, 'total', "%s was read with a total of %d for %r: %r", what, len(body) - 1, body, got)
        obs.hit('short_inputs')


def check_array(case, obs):
    L = library()
    kind, elem, length = case['kind'], case['elem'], case.get('length')
    marshal, field = array_marshal(L, kind, case['n'], length, element_marshal(elem, L))
    uses = [Used(L, marshal, field, how, k) for k, how in enumerate(WAYS)]
    what = "an array (%s %r of %s, %s)" % (kind, case['n'], elem, length)
    for count in range(0, case['n'] + 4):
        for first in range(0, 8):
            items = [element(elem, first * 3 + k) for k in range(count)]
            check_array_value(uses[first % 3], kind, case['n'], length, items, obs, what)
    if kind == 'fixed':
        n = case['n']
        obs.expect(attempt(L.FixedSizeArray, 'x', n, L.UBInt8, [1] * (n + 1))[1] is not None, 'default', "a default of %d elements", n + 1)
        cls = type('D', (L.Struct,), {'_fields_': [L.FixedSizeArray('x', n, L.UBInt8, default=[9] * n)]})
        obs.equal(cls.write_to_string(cls()), b'\x09' * n, 'default', "default of %s", what)


def check_one_array(case, obs):
    import random
    L = library()
    rng = random.Random(case['seed'])
    kind, elem, n, length = case['kind'], case['elem'], case['n'], case['length']
    if elem == 'nested':
        inner_kind, inner, inner_length = rng.choice(['var', 'sum', 'fixed']), rng.choice(ELEMENTS), rng.choice(sorted(LENGTHS))
        m = rng.randint(0, 4)
        em, _ = array_marshal(L, inner_kind, m, inner_length, element_marshal(inner, L))
        items = []
        for _ in range(n):
            parts = [element(inner, rng.randint(0, 50)) for _ in range(m if inner_kind == 'fixed' else rng.randint(0, 4))]
            body = b''.join(p[1] for p in parts)
            head = {'fixed': b'', 'var': number(len(parts), inner_length), 'sum': number(len(body), inner_length)}[inner_kind]
            items.append(([p[0] for p in parts], head + body, [p[2] for p in parts]))
        if kind == 'sum' and any(not i for v, i, b in items):
            return                      # elements that take no space have no end in such an array
    elif elem == 'struct':
        S = type('E', (L.Struct,), {'_fields_': [L.UBInt8('a'), L.VarSizeString('b', L.UBInt8)]})
        em, items = S, []
        for _ in range(n):
            a, b = rng.randrange(256), b'z' * rng.randint(0, 6)
            items.append((S(a=a, b=b), bytes(bytearray([a, len(b)])) + b, (a, b)))
    else:
        em = element_marshal(elem, L)
        items = [element(elem, rng.randint(0, 1000)) for _ in range(n)]
    marshal, field = array_marshal(L, kind, n, length, em)
    used = Used(L, marshal, field, WAYS[case['seed'] % 3], case['lead'])
    what = "an array (%s %d of %s, %s)" % (kind, n, elem, length)
    if elem == 'struct':
        used = Structs(used)
    check_array_value(used, kind, n, length, items, obs, what)
    if kind == 'fixed' and items:
        check_array_value(used, kind, n, length, items[1:], obs, what)
        check_array_value(used, kind, n, length, items + items[:1], obs, what)


class Structs(object):
    """Shows structs that were read as tuples of their values."""

    def __init__(self, used):
        self.used = used

    def __getattr__(self, name):
        return getattr(self.used, name)

    def read(self, data, tail=b''):
        v, n = self.used.read(data, tail)
        return [(x.a, x.b) for x in v], n


def check_limits(case, obs):
    L = library()
    length = case['length']
    size, order, signed = LENGTHS[length]
    top = (1 << (8 * size - signed)) - 1
    if size > 2:
        counts = [65535, 65536, 70000]
    else:
        counts = [top - 1, top, top + 1, top + 2]
    s = L.VarSizeStringMarshal(getattr(L, length))
    b = L.VarSizeBufferMarshal(getattr(L, length))
    a = L.VarSizeArrayMarshal(getattr(L, length), L.UBInt8)
    t = L.SumSizeArrayMarshal(getattr(L, length), L.UBInt8)
    t2 = L.SumSizeArrayMarshal(getattr(L, length), L.UBInt16)
    for n in range(-3, 0) if signed else ():
        for marshal in (s, b, a, t, t2):
            obs.hit('negative_lengths')
            got, err = attempt(marshal.create_from_string, number(n, length) + b'abcdefgh')
            obs.expect(err is not None, 'accepted', "a length of %d was read as %r", n, got)
    for n in counts:
        for marshal, v, total, body in [(s, b'r' * n, n, b'r' * n), (b, b'\0' * n, n, b'\0' * n), (a, [7] * n, n, b'\7' * n),
                                        (t, [7] * n, n, b'\7' * n), (t2, [7] * (n // 2), n // 2 * 2, b'\0\7' * (n // 2)),
                                        (a, tuple([7] * n), n, b'\7' * n), (t, tuple([7] * n), n, b'\7' * n), (a, b'\7' * n, n, b'\7' * n),
                                        (s, b'r' * n + b'\0' * 9, n, b'r' * n)]:
            got, err = attempt(marshal.write_to_string, v)
            obs.hit('length_limits')
            if total > top:
                obs.expect(err is not None, 'accepted', "%d was written as a length of type %s", total, length)
                continue
            obs.expect(err is None, 'rejected', "%d was not written as a length of type %s: %s", total, length, err)
            obs.expect(got == number(total, length) + body, 'limit', "%d bytes or elements with length %s are written wrong", total, length)
            back = marshal.create_from_string(got)
            obs.expect(back == (b'r' * n if marshal is s else list(v) if marshal in (a, t) else v), 'limit', "%d bytes or elements with length %s are read wrong", total,
                       length)
            if marshal.min_max_sizeof().max < len(got):
                obs.fail('min-max', "%d bytes are more than the maximum %r" % (len(got), marshal.min_max_sizeof()))


def check_padding(case, obs):
    L = library()
    from infi.instruct.padding import BytePaddingMarshal
    n = case['n']
    for char in (b'\0', b'x', b'\xff', b' '):
        for k, how in enumerate(WAYS):
            fields = [L.UBInt8('a'), L.BytePadding(n, char), L.UBInt8('b')]
            cls = type('P', (L.Struct,), {'_fields_': fields})
            obj = cls(a=1, b=2)
            obs.equal(cls.write_to_string(obj), b'\1' + char * n + b'\2', 'padding', "padding of %d %r", n, char)
            back = cls.create_from_string(b'\1' + b'?' * n + b'\2')
            obs.equal((back.a, back.b), (1, 2), 'padding', "what is around %d bytes of padding", n)
            obs.equal(cls.sizeof(obj), n + 2, 'padding', "size with %d bytes of padding", n)
            obs.equal(tuple(cls.min_max_sizeof()), (n + 2, n + 2), 'padding', "size with %d bytes of padding", n)
            got, err = attempt(BytePaddingMarshal(n, char).create_from_string, b'?' * max(0, n - 1))
            obs.expect((err is None) == (n == 0), 'short', "%d bytes of padding read from %d", n, n - 1)
            obs.hit('paddings')


def check_mapping(case, obs):
    L = library()
    size, order = case['size'], case['order']
    byteorder = 'big' if order == 'B' else 'little'
    vm = getattr(L, 'U%sInt%d' % (order, size * 8))
    # Keys like 1 and True, or 1 and 1.0, are the same key.
    table = {}
    for k, v in zip(case['keys'], case['values']):
        table[k] = v
    original = dict(table)
    marshal = L.FixedSizeMappingMarshal(table, vm)
    used = Used(L, marshal, L.MappingField('x', vm, table), WAYS[len(table) % 3], case['lead'])
    what = "a mapping %r" % (table,)
    for k, v in original.items():
        obs.hit('mappings')
        if k is None and used.how == 'field':
            pass
        image = v.to_bytes(size, byteorder)
        obs.equal(used.write(k), image, 'mapping-written', "%r with %s", k, what)
        got, taken = used.read(image, b'\0')
        obs.expect(got == k and type(got) is type(k), 'mapping-read', "%r read with %s is %r instead of %r", image, what, got, k)
        obs.equal((taken, used.sizeof(k)), (size, size), 'mapping-size', "%r with %s", k, what)
        short_got, err = attempt(used.read, image[:-1])
        obs.expect(err is not None, 'short', "%r read with %s is %r", image[:-1], what, short_got)
    for v in case['probe']:
        v %= 1 << (8 * size)
        if v in original.values():
            continue
        got, err = attempt(used.read, v.to_bytes(size, byteorder))
        obs.expect(err is not None, 'unmapped', "%d read with %s is %r", v, what, got)
        obs.hit('unmapped')
    for k in ('unknown', 12345, (), v):
        if any(k == x for x in original):
            continue
        got, err = attempt(used.write, k)
        obs.expect(err is not None, 'unmapped', "%r written with %s is %r", k, what, got)
        obs.hit('unmapped')
    obs.equal(table, original, 'mapping-changed', "the table")
    obs.equal(tuple(used.min_max()), (size, size), 'min-max', "size of %s", what)
    # Two keys for one value could not be told apart when reading.
    if len(original) > 1:
        twice = dict(original)
        twice['another key'] = list(original.values())[0]
        got, err = attempt(L.FixedSizeMappingMarshal, twice, vm)
        obs.expect(err is not None, 'ambiguous', "a mapping with two keys for one value was accepted")


def check(case, obs):
    op = case['op'].replace('-', '_')
    if op not in ('padded', 'var', 'buffer', 'one_string', 'array', 'one_array', 'limits', 'padding', 'mapping'):
        raise GeneratorError(op)
    globals()['check_' + op](case, obs)
