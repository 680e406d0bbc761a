"""What a declaration does not allow is rejected, in values and in input, and does no harm."""
from vmon import structgen
from vmon import structmodel as M

ID = 'S08'
RULE = ("random classes whose good objects get one value that cannot be represented, in every field, element and nested struct in turn; constants "
        "are assigned; inputs with flipped bits and replaced lengths, keys, constants and mapped values; afterwards objects and classes are used on")
CASES = {'quick': 5000, 'thorough': 300000}
REQUIRE = {'bad_values': 25000, 'repaired': 25000, 'const_assigned': 1500, 'bad_num': 5000, 'bad_float': 300, 'bad_pstr': 1500, 'bad_fbuf': 500,
           'bad_vstr': 300, 'bad_vbuf': 300, 'bad_farr': 300, 'bad_varr': 300, 'bad_sarr': 150, 'bad_map': 700, 'bad_struct': 340, 'bad_sel': 150,
           'bad_fsel': 150, 'bad_bit': 800, 'input_const': 800, 'input_mapping': 600, 'input_negative': 15, 'input_selector': 150,
           'input_short': 3000, 'sums_refused': 100, 'sums_read': 25, 'endless': 100, 'deep': 3000}


def generate(rng, tier):
    if rng.random() < 0.06:
        return {'what': 'endless', 'element': rng.choice((['fbuf', 0], ['pstr', 0, b'\0', 'right'], ['farr', 0, ['num', 'UBInt8']], ['farr', 3, [
            'fbuf', 0]], ['struct', {'name': 'E', 'fields': [{'k': 'opt', 'name': 'a', 'm': ['num', 'UBInt8'], 'pred': ['ctx', 'mode', 5]}]}],
            ['vstr', ['ptr', 'zero'], b'\0', 'right'])), 'size': rng.choice(structgen.UNSIGNED), 'n': rng.randint(1, 200),
            'nested': rng.random() < 0.5}
    if rng.random() < 0.05:
        return {'what': 'sum', 'size': rng.choice(structgen.INTS), 'elements': [bytes(bytearray(rng.choice((0, 65, 66)) for _ in range(
            rng.randint(0, 9)))) for _ in range(rng.randint(1, 5))], 'delta': rng.choice((-3, -2, -1, 0, 1, 2, 3)),
            'element': rng.choice(('vstr', 'vbuf', 'num', 'struct'))}
    g = structgen.Gen(rng, size=rng.choice((2, 4, 6)), depth=rng.choice((0, 1, 2, 3)), weights={'const': 1.5, 'map': 2, 'fbuf': 1.5, 'sarr': 1.5})
    spec = g.spec()
    values = g.values(spec)
    data = M.encode(spec, values)
    inputs = []
    for _ in range(5):
        d = bytearray(data)
        if rng.random() < 0.6 and d:
            i = rng.randrange(min(len(d), 40))
            d[i] = rng.choice((d[i] ^ (1 << rng.randrange(8)), 255, 0, 128, rng.getrandbits(8)))
            inputs.append(bytes(d))
        else:
            inputs.append(structgen.mutate(rng, data))
    return {'what': 'spec', 'spec': spec, 'values': values, 'other': g.values(spec), 'style': rng.getrandbits(20), 'inputs': inputs,
            'seed': rng.getrandbits(32)}


def bad_values(m, v):
    op = m[0]
    if op == 'num':
        if M.is_float(m[1]):
            return 'float', ['x', None, b'1', [], {}, 1j] + ([1e39, -3.5e38] if m[1][-2:] == '32' else [10 ** 400])
        low, high = M.limits(m[1])
        return 'num', [low - 1, high + 1, None, 'x', b'x', 1.5, [1], 1 << 70, -(1 << 70)]
    if op == 'pstr':
        out = [b'Q' * (m[1] + 1), b'Q' * (m[1] + 300), None, 5, [b'Q'], 'Q' * m[1] if m[1] else 7]
        if m[3] == 'none' and m[1]:
            out.append(b'Q' * (m[1] - 1))
        return 'pstr', out
    if op == 'fbuf':
        return 'fbuf', [b'Q' * (m[1] + 1), None, 5] + ([b'Q' * (m[1] - 1), b''] if m[1] else [])
    if op in ('vstr', 'vbuf'):
        out = [None, 5] + ([[b'Q'], ] if op == 'vstr' else [])
        if m[1][0] == 'num' and M.limits(m[1][1])[1] < 70000:
            out.append(b'Q' * (M.limits(m[1][1])[1] + 1))
        return op, out
    if op == 'farr':
        return 'farr', [None, 5, v + v[-1:] if v else None, v[:-1] if v else None, v * 2 if v else None, [] if v else None]
    if op == 'varr':
        out = [None, 5]
        if v and m[1][0] == 'num' and M.bits_of(m[1][1]) == 8:
            out.append(v[:1] * (M.limits(m[1][1])[1] + 1))
        return 'varr', out
    if op == 'sarr':
        return 'sarr', [None, 5]
    if op == 'map':
        return 'map', [x for x in ('nosuch', 12345, None, (), b'') if x not in [k for k, _ in m[1]]]
    return op, [None]


def targets(fields, values, obj, path, out, b):
    """(path, marshal or None, plain value, set, get) of every value that can be replaced."""
    for f in M.flat(fields):
        if 'name' not in f or 'value' in f:
            continue
        name = f['name']
        v = values.get(name)
        if 'm' not in f:
            out.append((path + [name], None, v, obj, name))
        elif f['k'] == 'opt' and v is None:
            continue
        else:
            inside(f['m'], v, obj, name, path + [name], out, b, f['k'] == 'opt')


def inside(m, v, holder, key, path, out, b, opt=False):
    out.append((path, m, v, holder, key, opt))
    real = holder[key] if isinstance(holder, list) else getattr(holder, key)
    if m[0] in ('farr', 'varr', 'sarr'):
        for i, x in enumerate(v[:3]):
            inside(m[2], x, real, i, path + [i], out, b)
    elif m[0] == 'struct':
        targets(m[1]['fields'], v, real, path, out, b)
    elif m[0] in ('sel', 'fsel'):
        targets(M.chosen(m, v[0])['fields'], v[1], real, path, out, b)


def check(case, obs):
    import random
    import infi.instruct as I
    if case['what'] != 'spec':
        return globals()['check_' + case['what']](case, obs)
    rng = random.Random(case['seed'])
    spec, values = case['spec'], case['values']
    b = M.Builder(case['style'])
    cls = b.build(spec)
    wire = M.encode(spec, values)
    obj = b.make(spec, values)
    other, other_wire = b.make(spec, case['other']), M.encode(spec, case['other'])
    obs.equal(cls.write_to_string(obj), wire, 'write', "%r of %r", values, spec)

    places = []
    targets(spec['fields'], values, obj, [], places, b)
    if len(places) > 25:
        places = rng.sample(places, 25)
    for place in places:
        path, m, v, holder, key = place[:5]
        if m is None:
            kind, bads = 'bit', [None, 'x', b'x', []]
        else:
            kind, bads = bad_values(m, v)
        if len(place) > 5 and place[5]:
            bads = [x for x in bads if x is not None]          # an optional value may be left out
        for bad in rng.sample(bads, min(3, len(bads))):
            if isinstance(bad, list) and m is not None and m[0] in ('farr', 'varr'):
                bad = b.value_of(m, bad)
            good = holder[key] if isinstance(holder, list) else getattr(holder, key)
            put(holder, key, bad)
            try:
                got = cls.write_to_string(obj)
            except Exception:
                pass
            else:
                if not (m is not None and m[0] in ('farr',) and bad is None and not v):
                    obs.fail('accepts', "%r at %r of %r is written as %r" % (bad, path, spec, got))
            obs.hit('bad_values')
            obs.hit('bad_' + kind)
            if len(path) > 1:
                obs.hit('deep')
            put(holder, key, good)
            obs.equal(cls.write_to_string(obj), wire, 'repaired', "%r of %r after %r at %r was put right", values, spec, bad, path)
            obs.hit('repaired')
    obs.equal(b.plain(spec, obj), values, 'changed', "values of an object of %r after failures", spec)
    obs.equal(cls.write_to_string(other), other_wire, 'other', "another object of %r after failures", spec)

    # constants
    for f in M.named(spec):
        if 'value' not in f:
            continue
        now = getattr(obj, f['name'])
        wrong = [None, 'zzz', b'zzz', [], object()] + ([f['value'] + 1, f['value'] - 1] if isinstance(f['value'], int) else [])
        for bad in wrong:
            if bad == f['value'] or (bad == [] and f['value'] == []):
                continue
            try:
                setattr(obj, f['name'], bad)
            except I.InstructError:
                obs.hit('const_assigned')
            else:
                obs.fail('const', "%r is assigned to the constant %r" % (bad, f))
        setattr(obj, f['name'], now)
        obs.expect(getattr(obj, f['name']) is now, 'const', "constant %r changed", f)
        x = cls(**dict(b.kwargs(spec, values), **{f['name']: 'zzz'})) if f['value'] != 'zzz' else obj
        obs.expect(getattr(x, f['name']) is now, 'const', "constant %r changed by an argument", f)
        obs.equal(cls.write_to_string(obj), wire, 'const', "after assignments to %r", f)

    # input
    normal = M.normal(spec, values)
    for data in case['inputs']:
        try:
            M.decode(spec, M.Reader(data))
        except M.ModelError as e:
            try:
                got = b.plain(spec, cls.create_from_string(data))
            except Exception as ex:
                if e.kind in ('const', 'negative', 'sum') and not lazy_inside(spec):
                    obs.expect(isinstance(ex, (I.InstructError, AssertionError)), 'error-type', "%r of %r (%s) gives %r", data, spec, e, ex)
                obs.hit('input_' + e.kind)
            else:
                obs.fail('accepts', "%r of %r is read as %r, but %s" % (data, spec, got, e))
    obs.equal(b.plain(spec, cls.create_from_string(wire)), normal, 'after', "%r after malformed input", spec)
    obs.equal(cls.write_to_string(obj), wire, 'after', "an object of %r after malformed input", spec)


def lazy_inside(spec):
    return "'lazy'" in repr(spec)


def put(holder, key, v):
    if isinstance(holder, list):
        holder[key] = v
    else:
        setattr(holder, key, v)


def check_endless(case, obs):
    """An array measured in bytes whose elements take none ends."""
    import infi.instruct as I
    b = M.Builder(1)
    fields = [{'k': 'f', 'name': 'zero', 'm': ['num', 'UBInt8']}, {'k': 'f', 'name': 'x', 'm': ['sarr', ['num', case['size']], case['element']]}]
    spec = {'name': 'S', 'fields': fields}
    if case['nested']:
        spec = {'name': 'T', 'fields': [{'k': 'f', 'name': 'in', 'm': ['varr', ['num', 'UBInt8'], ['struct', spec]]}]}
    cls = b.build(spec)
    for n in (case['n'], 0):
        data = (b'\1' if case['nested'] else b'') + b'\0' + M.encode_num(case['size'], n) + b'z' * n
        try:
            got = cls.create_from_string(data)
        except Exception:
            obs.expect(n > 0, 'refuses', "an empty array of %r", case['element'])
            obs.hit('endless')
        else:
            obs.expect(n == 0, 'accepts', "%r of %r is read as %r", data, spec, got)


def check_sum(case, obs):
    """An array measured in bytes ends exactly where its total says."""
    u8 = ['num', 'UBInt8']
    element = {'vstr': ['vstr', u8, b'\0', 'right'], 'vbuf': ['vbuf', u8], 'num': ['num', 'ULInt32'],
               'struct': ['struct', {'name': 'E', 'fields': [{'k': 'f', 'name': 'n', 'm': u8}, {'k': 'f', 'name': 's', 'm': [
                   'vstr', ['ptr', 'n'], b'\0', 'right']}]}]}[case['element']]
    spec = {'name': 'S', 'fields': [{'k': 'f', 'name': 'x', 'm': ['sarr', ['num', case['size']], element]}, {'k': 'f', 'name': 'after', 'm': u8}]}
    holder = {'name': 'H', 'fields': [{'k': 'f', 'name': 'in', 'm': ['fsel', ['peek', 'UBInt8'], [[i, spec] for i in range(256)]]}]}
    b = M.Builder(1)
    body = b''.join(bytes(bytearray([len(e)])) + e for e in case['elements']) if element[0] != 'num' else b'\1\2\3\4' * len(case['elements'])
    total = len(body) + case['delta']
    if total > 127 or (total < 0 and case['size'][0] == 'U'):
        return
    data = M.encode_num(case['size'], total) + body + b'\x55\x66\x77\x88'
    for s, get in ((spec, lambda v: v), (holder, lambda v: v['in'][1])):
        cls = b.build(s)
        try:
            want = M.decode(spec, M.Reader(data))
        except M.ModelError as e:
            try:
                got = b.plain(s, cls.create_from_string(data))
            except Exception:
                obs.hit('sums_refused')
                continue
            obs.fail('sum', "%r of %r is read as %r, but %s" % (data, s, got, e))
        obs.equal(get(b.plain(s, cls.create_from_string(data))), want, 'sum', "%r of %r", data, s)
        obs.hit('sums_read')
