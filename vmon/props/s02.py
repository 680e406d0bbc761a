"""Numbers of every width, sign and byte order are coded exactly, and rejected when they do not fit."""
import math

from vmon import structmodel as M

ID = 'S02'
RULE = ("all 30 number types x every way of using them (plain field, Field with a marshal, default, array elements and lengths, "
        "mapping, constant, optional, lazy, selector key): every value of the 8 and 16 bit types, every power of two +-2, limits and random "
        "values of the others, special floats, random byte patterns, every value just outside the range, wrong types, short input")
CASES = {'quick': 2500, 'thorough': 200000}
REQUIRE = {'encoded': 300000, 'decoded': 260000, 'rejected_values': 2500, 'rejected_short': 1500, 'used_as_marshal': 30, 'used_as_field': 100,
           'used_as_array': 100, 'used_as_length': 60, 'used_as_const': 100, 'used_as_lazy': 100, 'used_as_map': 100, 'used_as_key': 60,
           'used_as_default': 60, 'used_as_optional': 60, 'used_as_vararray': 60}
USES = ['field', 'Field', 'array', 'vararray', 'length', 'const', 'lazy', 'map', 'key', 'default', 'optional', 'pointer']
NAMES = sorted(M.FORMATS)
SPECIAL = [0.0, -0.0, 1.0, -1.0, float('inf'), float('-inf'), float('nan'), 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           1.401298464324817e-45, 1.1754943508222875e-38, 3.4028234663852886e38, 0.1, 1 / 3.0, 16777217.0, 2.0 ** 53 + 2, -65504.0, 1e-40]


def ints(name):
    low, high = M.limits(name)
    out = set([low, high, 0, 1, low + 1, high - 1])
    for k in range(M.bits_of(name) + 1):
        for d in (-2, -1, 0, 1, 2):
            out.update(((1 << k) + d, -(1 << k) + d))
    out.update(int.from_bytes(bytes([1 << k % 8 if i == k // 8 else 0 for i in range(8)]), 'big') for k in range(64))
    out.update([0x0102030405060708, 0x1020304, 0x102, 0x7f80, 0xfe])
    return sorted(v for v in out if low <= v <= high)


def outside(name):
    low, high = M.limits(name)
    return [low - 1, high + 1, low - 256, high + 256, low * 2 - 1, high * 2 + 2, 1 << 64, -(1 << 63) - 1, 1 << 80, None, 'x', b'x', 1.5,
            [], {}, high + 0.5, '5', b'5', '0']


def exhaustive(tier):
    for name in NAMES:
        if M.is_float(name):
            values = [v for v in SPECIAL if abs(v) < 3.5e38 or v != v or math.isinf(v) or name[-2:] == '64']
            yield {'type': name, 'use': 'marshal', 'values': values, 'bad': [None, 'x', b'x', [], {}, '1.0'] + (
                [3.5e38, -1e39, 1.7976931348623157e308] if name[-2:] == '32' else [10 ** 400])}
            continue
        if M.bits_of(name) <= 16:
            low, high = M.limits(name)
            for at in range(low, high + 1, 8192):
                yield {'type': name, 'use': 'marshal', 'values': ['range', at, min(at + 8192, high + 1)], 'bad': []}
        yield {'type': name, 'use': 'marshal', 'values': ints(name), 'bad': outside(name)}
    for name in NAMES:
        for use in USES:
            if M.is_float(name):
                if use in ('length', 'pointer'):
                    continue
                yield {'type': name, 'use': use, 'values': [1.0, -2.5, 0.0, 2.0 ** 100, -0.5], 'bad': [None, 'x']}
            else:
                low, high = M.limits(name)
                yield {'type': name, 'use': use, 'values': sorted(set([low, high, 0, 1, 3, high // 3, low // 3, 0x7f & high])),
                       'bad': [low - 1, high + 1, 'x', None, 2.5]}


def generate(rng, tier):
    name = rng.choice(NAMES)
    use = rng.choice(['marshal'] + USES)
    if M.is_float(name):
        n = int(name[-2:]) // 8
        values = []
        while len(values) < 20:
            v = M.decode_num(name, bytes(bytearray(rng.getrandbits(8) for _ in range(n))))
            if v == v or use == 'marshal':
                values.append(v)
        bad = []
        if use in ('length', 'pointer'):
            use = 'field'
    else:
        low, high = M.limits(name)
        values = [rng.randint(low, high) for _ in range(20)] + [max(low, min(high, rng.choice((-1, 1)) * rng.getrandbits(
            rng.randint(1, M.bits_of(name))))) for _ in range(10)]
        bad = [rng.choice((high + 1 + rng.getrandbits(rng.randint(1, 70)), low - 1 - rng.getrandbits(rng.randint(1, 70))))
               for _ in range(5)]
    if use in ('map', 'key'):
        values = [v for i, v in enumerate(values) if v not in values[:i]]
    return {'type': name, 'use': use, 'values': values, 'bad': bad}


def expand(values):
    return list(range(values[1], values[2])) if values and values[0] == 'range' else values


def refuses(obs, f, text, *args):
    try:
        got = f()
    except Exception:
        obs.hit('rejected_values')
        return
    obs.fail('accepts', (text % args) + " is accepted: %r" % (got,))


def check(case, obs):
    import infi.instruct as I
    name, use = case['type'], case['use']
    plain, marshal = getattr(I, name), getattr(I, name + 'Marshal')
    size = M.bits_of(name) // 8
    values = expand(case['values'])
    obs.hit('used_as_' + use.lower())

    for m in (plain, marshal):
        obs.equal([m.is_fixed_size(), tuple(m.min_max_sizeof()), m.sizeof(values[0])], [True, (size, size), size], 'size', "%s", name)
    if use == 'marshal':
        check_marshal(case, obs, plain if len(values) % 2 else marshal, values, size)
    else:
        check_use(case, obs, I, plain, marshal, values, size)


def check_marshal(case, obs, m, values, size):
    from io import BytesIO
    name = case['type']
    out = BytesIO()
    for v in values:
        want = M.encode_num(name, v)
        got = m.write_to_string(v)
        obs.equal(got, want, 'encode', "%s writes %r as", name, v)
        m.write_to_stream(v, out)
        obs.equal(m.create_from_string(want), M.decode_num(name, want), 'decode', "%s reads %r as", name, want)
        if not M.is_float(name):
            obs.equal(m.create_from_string(want), v, 'decode', "%s reads %r as", name, want)
    obs.hit('encoded', len(values))
    obs.hit('decoded', len(values))
    data = out.getvalue()
    obs.equal(data, b''.join(M.encode_num(name, v) for v in values), 'stream', "the values of %s one after the other", name)
    s = BytesIO(data)
    for v in values:
        got = m.create_from_stream(s)
        if v == v:
            obs.equal(got, M.decode_num(name, M.encode_num(name, v)), 'stream', "%s read from a stream", name)
    obs.equal(s.tell(), len(data), 'consumed', "%s", name)
    data = data[:size]
    for n in range(size):
        refuses(obs, lambda: m.create_from_string(data[:n]), "%s from %d bytes", name, n)
        obs.hit('rejected_short')
    obs.equal(m.create_from_string(data + b'\xaa'), m.create_from_string(data), 'extra', "%s ignores what follows", name)
    for v in case['bad']:
        out = BytesIO()
        refuses(obs, lambda: m.write_to_stream(v, out), "%s of %r", name, v)
        obs.equal(out.getvalue(), b'', 'partial', "%s of %r wrote something", name, v)


def check_use(case, obs, I, plain, marshal, values, size):
    name, use = case['type'], case['use']
    low, high = (0, 0) if M.is_float(name) else M.limits(name)

    def enc(v):
        return M.encode_num(name, v)

    def struct(*fields):
        class Record(I.Struct):
            _fields_ = [I.UBInt8('before')] + list(fields) + [I.UBInt8('after')]
        return Record

    def both(cls, attr, v, want, read=True, full=True):
        obj = cls(before=1, after=2, **({attr: v} if full else {}))
        got = cls.write_to_string(obj)
        obs.equal(got, b'\1' + want + b'\2', 'encode', "%s as %s writes %r as", name, use, v)
        obs.equal(cls.sizeof(obj), len(want) + 2, 'size', "%s as %s", name, use)
        back = cls.create_from_string(b'\1' + want + b'\2')
        obs.equal([back.before, getattr(back, attr), back.after], [1, v, 2], 'decode', "%s as %s reads %r as", name, use, want)
        obs.hit('encoded')
        obs.hit('decoded')
        for n in range(len(want) + 2):
            try:
                x = cls.create_from_string((b'\1' + want + b'\2')[:n])
                x = getattr(x, attr)
            except Exception:
                obs.hit('rejected_short')
                continue
            obs.fail('short', "%s as %s is read from the first %d bytes of %r: %r" % (name, use, n, b'\1' + want + b'\2', x))

    if use in ('field', 'Field', 'lazy'):
        f = plain('x') if use == 'field' else I.Field('x', marshal) if use == 'Field' else I.Lazy(plain('x'), I.UBInt8('y'))
        cls = struct(f)
        for v in values:
            if use == 'lazy':
                obj = cls(before=1, after=2, x=v, y=9)
                obs.equal(cls.write_to_string(obj), b'\1' + enc(v) + b'\x09\2', 'encode', "%s lazily", name)
                back = cls.create_from_string(b'\1' + enc(v) + b'\x09\2')
                obs.equal([back.x, back.y, back.after], [v, 9, 2], 'decode', "%s lazily", name)
                obs.hit('encoded')
            else:
                both(cls, 'x', v, enc(v))
        for v in case['bad']:
            obj = cls(before=1, after=2, x=v, **({'y': 9} if use == 'lazy' else {}))
            refuses(obs, lambda: cls.write_to_string(obj), "%s as %s: %r", name, use, v)
            obj.x = values[-1]
            obs.equal(cls.write_to_string(obj), b'\1' + enc(values[-1]) + (b'\x09' if use == 'lazy' else b'') + b'\2', 'after',
                      "%s as %s corrected after %r", name, use, v)
    elif use in ('array', 'vararray'):
        for n in (len(values), 1, 0):
            cls = struct(I.FixedSizeArray('x', n, plain) if use == 'array' else I.VarSizeArray('x', I.UBInt8, marshal))
            both(cls, 'x', values[:n], (b'' if use == 'array' else bytes(bytearray([n]))) + b''.join(enc(v) for v in values[:n]))
        cls = struct(I.SumSizeArray('x', I.UBInt16, plain))
        both(cls, 'x', values, M.encode_num('UBInt16', size * len(values)) + b''.join(enc(v) for v in values))
        cls = struct(I.FixedSizeArray('x', 2, plain))
        for v in case['bad']:
            refuses(obs, lambda: cls.write_to_string(cls(before=1, after=2, x=[values[0], v])), "%s in an array: %r", name, v)
    elif use == 'length':
        cls = struct(I.VarSizeArray('x', plain, I.UBInt8))
        cls2 = struct(I.VarSizeString('x', marshal))
        cls3 = struct(I.VarSizeBuffer('x', plain))
        cls4 = struct(I.SumSizeArray('x', plain, I.UBInt16))
        for n in (0, 1, 2, 3, 100, 127, 128, 255, 256, 300):
            if n > high:
                refuses(obs, lambda: cls.write_to_string(cls(before=1, after=2, x=[7] * n)), "%d elements counted by %s", n, name)
                refuses(obs, lambda: cls2.write_to_string(cls2(before=1, after=2, x=b'q' * n)), "%d characters counted by %s", n, name)
                refuses(obs, lambda: cls3.write_to_string(cls3(before=1, after=2, x=b'q' * n)), "%d bytes counted by %s", n, name)
                refuses(obs, lambda: cls4.write_to_string(cls4(before=1, after=2, x=[7] * n)), "%d bytes counted by %s", n * 2, name)
            elif n < 5:
                both(cls, 'x', [7] * n, enc(n) + b'\7' * n)
                both(cls2, 'x', b'q' * n, enc(n) + b'q' * n)
                both(cls3, 'x', b'\0' * n, enc(n) + b'\0' * n)
                both(cls4, 'x', [7] * n, enc(2 * n) + b'\0\7' * n)
            else:
                obs.equal(cls3.write_to_string(cls3(before=1, after=2, x=b'q' * n)), b'\1' + enc(n) + b'q' * n + b'\2', 'encode', "%s", name)
                obs.equal(cls3.create_from_string(b'\1' + enc(n) + b'q' * n + b'\2').x, b'q' * n, 'decode', "%s", name)
        if low < 0:
            for c in (cls, cls2, cls3):
                for v in (-1, low, -3):
                    refuses(obs, lambda: c.create_from_string(b'\1' + enc(v) + b'qqqqqqq'), "a length of %d", v)
    elif use == 'const':
        for v in values:
            cls = struct(I.ConstField('x', v, plain if v else marshal))
            both(cls, 'x', v, enc(v), full=False)
            for other in values:
                if other != v:
                    refuses(obs, lambda: cls.create_from_string(b'\1' + enc(other) + b'\2'), "%r instead of the constant %r", other, v)
    elif use == 'map':
        table = dict(('k%d' % i, v) for i, v in enumerate(values))
        cls = struct(I.MappingField('x', plain if len(values) % 2 else marshal, table))
        for k, v in table.items():
            both(cls, 'x', k, enc(v))
        if not M.is_float(name):
            other = [v for v in range(low, low + 20) if v not in values][0]
            refuses(obs, lambda: cls.create_from_string(b'\1' + enc(other) + b'\2'), "an unmapped %r", other)
        refuses(obs, lambda: cls.write_to_string(cls(before=1, after=2, x='nosuch')), "an unmapped key")
    elif use == 'key':
        classes = {}
        for i, v in enumerate(values):
            classes[v] = type(I.Struct)('Sel%d' % i, (I.Struct,), {'_fields_': [I.ConstField('t', v, plain), I.UBInt8('n')]})
        cls = struct(I.Field('x', I.StructSelector(marshal, classes)))
        for v in values:
            data = b'\1' + enc(v) + b'\x05\2'
            back = cls.create_from_string(data)
            obs.expect(type(back.x) is classes[v], 'select', "%s selects with %r: %r", name, v, type(back.x))
            obs.equal([back.x.t, back.x.n, back.after], [v, 5, 2], 'decode', "%s selects with %r", name, v)
            obs.equal(cls.write_to_string(cls(before=1, after=2, x=classes[v](n=5))), data, 'encode', "%s selects with %r", name, v)
            obs.hit('encoded')
    elif use == 'default':
        for v in values:
            cls = struct(plain('x', default=v) if v else I.Field('x', marshal, v))
            obs.equal(cls.write_to_string(cls(before=1, after=2)), b'\1' + enc(v) + b'\2', 'encode', "%s with the default %r", name, v)
            other = values[-1] if v != values[-1] else values[0]
            obs.equal(cls.write_to_string(cls(before=1, after=2, x=other)), b'\1' + enc(other) + b'\2', 'encode', "%s with default", name)
            obs.equal(cls.create_from_string(b'\1' + enc(other) + b'\2').x, other, 'decode', "%s with default", name)
            obs.hit('encoded')
    elif use == 'optional':
        cls = struct(I.OptionalField('x', plain, lambda obj, stream, context: obj.before == 1))
        for v in values:
            both(cls, 'x', v, enc(v))
        obs.equal(cls.create_from_string(b'\0\2').after, 2, 'decode', "%s absent", name)
        obs.equal(cls.write_to_string(cls(before=0, after=2)), b'\0\2', 'encode', "%s absent", name)
    elif use == 'pointer':
        cls = struct(plain('n'), I.FixedSizeArray('pair', 2, I.UBInt8), I.VarSizeArray('x', I.ReadPointer('n'), I.UBInt8))
        for n in (0, 1, 2, 5, 100):
            obj = cls(before=1, after=2, n=n, pair=[8, 9], x=[7] * n)
            data = b'\1' + enc(n) + b'\x08\x09' + b'\7' * n + b'\2'
            obs.equal(cls.write_to_string(obj), data, 'encode', "%s as a pointed-at length", name)
            back = cls.create_from_string(data)
            obs.equal([back.n, back.x, back.after], [n, [7] * n, 2], 'decode', "%s as a pointed-at length", name)
            obs.hit('encoded')
