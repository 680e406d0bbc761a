"""Sizes that structs announce are the sizes that they have."""
import sys

from vmon import structgen
from vmon import structmodel as M

ID = 'S04'
RULE = ("random classes: sizeof() of built, read, modified and derived objects and of every marshal in them against what is written; "
        "min_max_sizeof()/is_fixed_size() against the sizes of random, minimal and maximal values and against computed bounds; MinMax "
        "arithmetic; declarations that need a fixed size offered varying ones")
CASES = {'quick': 8000, 'thorough': 400000}
REQUIRE = {'sizes': 20000, 'exact_bounds': 2000, 'approximate_bounds': 100, 'fixed_size': 800, 'varying_size': 500, 'marshal_sizes': 6000,
           'minimal_reached': 1500, 'maximal_reached': 1200, 'derived': 250, 'read_objects': 6000, 'minmax': 200, 'refused_declarations': 150,
           'modified': 1500, 'adversarial_optional': 200, 'optional_defaults': 200, 'defaults': 3000}


def generate(rng, tier):
    r = rng.random()
    if r < 0.06:
        limit = rng.choice((10, 1 << 16, sys.maxsize, 1 << 70))
        return {'what': 'minmax', 'n': [rng.randint(-limit, limit) for _ in range(4)]}
    g = structgen.Gen(rng, size=rng.choice((1, 3, 6)), depth=rng.choice((0, 1, 2)), weights={'opt': 1.5, 'sarr': 0.7})
    spec = g.spec()
    if r < 0.12:
        return {'what': 'refuse', 'spec': spec, 'style': rng.getrandbits(20), 'how': rng.choice(('lazy', 'map', 'bits')),
                'fields': [g.spec(n=1, ctx=False) for _ in range(3)]}
    case = {'what': 'size', 'spec': spec, 'style': rng.getrandbits(20), 'values': [g.values(spec) for _ in range(2)]}
    if r < 0.24:
        case['what'] = 'derived'
        case['extra'] = M_rename(g.spec(n=rng.randint(1, 3), ctx=False))
        case['extra_values'] = g.values(case['extra'])
    return case


def M_rename(spec):
    """Gives the fields names that the other class doesn't have."""
    def field(f):
        f = dict(f)
        if 'name' in f:
            f['name'] += '_more'
        if 'pred' in f and f['pred'][0] != 'ctx':
            f['pred'] = [f['pred'][0], f['pred'][1] + '_more'] + f['pred'][2:]
        if 'fields' in f:
            f['fields'] = [field(x) for x in f['fields']]
        if 'm' in f:
            f['m'] = marshal(f['m'])
        return f

    def marshal(m):
        if m[0] == 'ptr':
            return ['ptr', m[1] + '_more']
        if m[0] in ('vstr', 'vbuf'):
            return [m[0], marshal(m[1])] + m[2:]
        if m[0] in ('varr', 'sarr'):
            return [m[0], marshal(m[1]), marshal(m[2])]
        if m[0] == 'farr':
            return [m[0], m[1], marshal(m[2])]
        if m[0] == 'sel' and m[1][0] == 'ptr':
            return ['sel', marshal(m[1])] + m[2:]
        if m[0] == 'fsel' and m[1][0] == 'attr':
            return ['fsel', ['attr', m[1][1] + '_more'], m[2]]
        return m
    return dict(spec, name='Extra', fields=[field(f) for f in spec['fields']])


class TooBig(Exception):
    pass


def extreme(m, high, budget):
    """A value of m that takes as few or as many bytes as any."""
    op = m[0]
    if op == 'num':
        budget[0] -= M.bits_of(m[1]) // 8
        v = 0
    elif op in ('pstr', 'fbuf'):
        v = b'Q' * m[1]
    elif op in ('vstr', 'vbuf', 'varr', 'sarr'):
        if m[1][0] == 'ptr':
            raise TooBig()
        most = M.limits(m[1][1])[1] if high else 0
        if op == 'sarr' and high:
            raise TooBig()
        if most > 70000 or op == 'varr' and most > 300:
            raise TooBig()
        budget[0] -= most
        v = []
        if op in ('vstr', 'vbuf'):
            v = b'Q' * most
        else:
            for _ in range(most):
                v.append(extreme(m[2], high, budget))
    elif op == 'farr':
        v = []
        for _ in range(m[1]):
            v.append(extreme(m[2], high, budget))
    elif op == 'map':
        v = m[1][0][0]
    elif op == 'struct':
        v = extremes(m[1], high, budget)
    elif op in ('sel', 'fsel'):
        best = sorted(M.choices(m), key=lambda s: M.bounds(s)[high])[-1 if high else 0]
        v = [best['name'], extremes(best, high, budget)]
    else:
        raise AssertionError(op)
    if budget[0] < 0:
        raise TooBig()
    return v


def extremes(spec, high, budget):
    out = {}
    for f in M.named(spec):
        if 'value' in f:
            if 'm' in f and len(set(M.marshal_bounds(f['m']))) > 1:
                raise TooBig()            # a constant has one size, whatever its marshal can do
            out[f['name']] = f['value']
        elif 'm' not in f:
            out[f['name']] = 0
        elif f['k'] == 'opt' and not high:
            out[f['name']] = None
        else:
            out[f['name']] = extreme(f['m'], high, budget)
    return out


def check(case, obs):
    globals()['check_' + case['what']](case, obs)


def check_minmax(case, obs):
    from infi.instruct import MinMax
    a, b, c, d = case['n']

    def want(low, high):
        return (max(0, low), min(high, sys.maxsize))

    for low, high in ((a, b), (c, d), (a, a)):
        if low > high:
            low, high = high, low
        if high < 0:
            continue
        if low > sys.maxsize:
            continue
        x = MinMax(low, high)
        obs.equal([tuple(x), x.min, x.max, x[0], x[1], tuple(MinMax(x)), tuple(MinMax((low, high))), tuple(MinMax([low, high]))],
                  [want(low, high)] + list(want(low, high)) * 2 + [want(low, high)] * 3, 'minmax', "MinMax(%r, %r)", low, high)
        obs.equal(x.is_unbounded(), high >= sys.maxsize, 'minmax', "unbounded %r", high)
        obs.equal(tuple(MinMax(low)), want(low, sys.maxsize), 'minmax', "MinMax(%r)", low)
        y = MinMax(1, abs(c)) if abs(c) > 0 else MinMax(0, 0)
        if want(low, high)[0] + y.min <= sys.maxsize:
            obs.equal(tuple(x + y), want(x.min + y.min, x.max + y.max), 'minmax', "%r + %r", x, y)
            obs.equal(tuple(y + x), tuple(x + y), 'minmax', "%r + %r", y, x)
        obs.hit('minmax')
    for low, high in ((a, b), (c, d)):
        if low > high:
            try:
                MinMax(low, high)
            except Exception:
                continue
            obs.fail('minmax', "MinMax(%r, %r) is accepted" % (low, high))


def fixed(spec):
    a, b = M.bounds(spec)
    return a == b


def check_refuse(case, obs):
    """Groups that need to know their size beforehand refuse fields that vary."""
    import infi.instruct as I
    b = M.Builder(case['style'])
    for i, spec in enumerate(case['fields']):
        f = spec['fields'][-1]
        varies = M.field_bounds(f)
        varies = varies[0] != varies[1]
        if f['k'] == 'lazy' or 'm' not in f or any(b_ is not f for b_ in spec['fields'][:-1]):
            continue
        field, m = b.field(f), b.marshal(f['m'])
        try:
            if case['how'] == 'lazy':
                type(I.Struct)('L%d' % i, (I.Struct,), {'_fields_': [I.Lazy(I.UBInt8('first_one'), field)]})
            elif case['how'] == 'map':
                if f['m'][0] != 'num' and not varies or f['k'] == 'opt':
                    continue
                I.MappingField('x', m, {})
            elif varies:
                type(I.Struct)('B%d' % i, (I.Struct,), {'_fields_': [I.BitFields(I.BitField('b', 8), field)]})
        except Exception as e:
            obs.expect(varies, 'refused', "%r in %s: %r", f, case['how'], e)
            obs.hit('refused_declarations')
            continue
        obs.expect(not varies, 'accepted', "%r, whose size varies, is accepted in %s", f, case['how'])


def sizes(obs, b, cls, spec, obj, wire, low, high, text):
    import infi.instruct as I
    obs.equal([cls.sizeof(obj), type(obj).sizeof(obj), I.Struct.sizeof(obj)], [len(wire)] * 3, 'sizeof', "%s of %r, written as %r", text, spec,
              wire[:200])
    obs.expect(low <= len(wire) <= high, 'bounds', "%s of %r takes %d bytes, but the class says %d to %d", text, spec, len(wire), low, high)
    obs.hit('sizes')


def check_size(case, obs):
    spec = case['spec']
    b = M.Builder(case['style'], share=True)
    cls = b.build(spec)
    low, high = tuple(cls.min_max_sizeof())
    want = M.bounds(spec)
    if M.exact_bounds(spec):
        obs.equal([low, high], list(want), 'bounds', "%r", spec)
        obs.hit('exact_bounds')
    else:
        obs.equal(low, want[0], 'bounds', "smallest size of %r", spec)
        obs.expect(high >= want[1], 'bounds', "%r has up to %d bytes, not %d", spec, want[1], high)
        obs.hit('approximate_bounds')
    if M.exact_bounds(spec):
        obs.equal(M.fixed_size(cls), want[0] == want[1], 'fixed', "%r", spec)
    obs.hit('fixed_size' if want[0] == want[1] else 'varying_size')

    for values in case['values']:
        obj = b.make(spec, values)
        wire = cls.write_to_string(obj)
        sizes(obs, b, cls, spec, obj, wire, low, high, "an object")
        back = cls.create_from_string(wire)
        again = cls.write_to_string(back)
        sizes(obs, b, cls, spec, back, again, low, high, "an object that was read")
        obs.hit('read_objects')
        # parts
        for f in M.named(spec):
            if 'm' in f and values.get(f['name']) is not None:
                m = b.marshal(f['m'])
                v = getattr(obj, f['name'])
                data = M.encode_marshal(f['m'], values[f['name']], M.TOP.enter(spec, values))
                obs.equal(m.sizeof(v), len(data), 'sizeof', "%r of %r", f['m'], values[f['name']])
                a, z = tuple(m.min_max_sizeof())
                wa, wz = M.marshal_bounds(f['m'])
                obs.expect(a <= len(data) <= z, 'bounds', "%r of %r takes %d bytes, but it says %d to %d", f['m'], values[f['name']], len(data),
                           a, z)
                obs.equal(a, wa, 'bounds', "smallest size of %r", f['m'])
                obs.expect(z >= wz, 'bounds', "%r takes up to %d bytes, but it says %d", f['m'], wz, z)
                obs.hit('marshal_sizes')
        # after changes, also of optional values whatever their predicate says
        other = case['values'][1]
        for f in M.named(spec):
            if 'm' in f and 'value' not in f and not uses_ptr(f['m']):
                if f['k'] == 'opt' and other.get(f['name']) is None:
                    obs.hit('adversarial_optional')
                setattr(obj, f['name'], b.value_of(f['m'], other.get(f['name'])))
        wire = cls.write_to_string(obj)
        sizes(obs, b, cls, spec, obj, wire, low, high, "a modified object")
        obs.hit('modified')

    check_defaults(case, obs)
    for end in (0, 1):
        try:
            values = extremes(spec, end, [100000])
        except TooBig:
            continue
        obj = b.make(spec, values)
        wire = cls.write_to_string(obj)
        obs.equal(len(wire), want[end], 'harness', "the %s object of %r", ('smallest', 'largest')[end], spec)
        sizes(obs, b, cls, spec, obj, wire, low, high, "the %s object" % ('smallest', 'largest')[end])
        obs.hit(('minimal', 'maximal')[end] + '_reached')


def with_defaults(f, values):
    if f.get('k') in ('lazy', 'bits', 'pos'):
        return dict(f, fields=[with_defaults(x, values) for x in f['fields']])
    if f.get('name') in values and 'value' not in f and f.get('k') not in ('const', 'bconst'):
        return dict(f, default=values[f['name']])
    return f


def check_defaults(case, obs):
    """Objects that are left as they were created are measured by their defaults."""
    values = case['values'][1]
    spec = dict(case['spec'], fields=[with_defaults(f, values) for f in case['spec']['fields']])
    cls = M.Builder(case['style']).build(spec)
    low, high = tuple(cls.min_max_sizeof())
    want = M.encode(spec, values)
    for first in (0, 1):
        obj = cls()
        if first:
            obs.equal(cls.sizeof(obj), len(want), 'sizeof', "an object of defaults of %r", spec)
        obs.equal(cls.write_to_string(obj), want, 'defaults', "an object of defaults of %r", spec)
        sizes(obs, None, cls, spec, obj, want, low, high, "an object of defaults")
    if any('default' in f and f['k'] == 'opt' and f['default'] is not None for f in M.everything(spec)):
        obs.hit('optional_defaults')
    obs.hit('defaults')


def uses_ptr(m):
    return "'ptr'" in repr(m)


def check_derived(case, obs):
    import infi.instruct as I
    spec, extra = case['spec'], case['extra']
    b = M.Builder(case['style'])
    base = b.build(spec)
    derived = type(I.Struct)('Derived', (base,), {'_fields_': list(base._fields_) + [b.field(f) for f in extra['fields']]})

    class Outer(I.Struct):
        _fields_ = [I.UBInt8('first'), I.Field('one', base), I.VarSizeArray('many', I.UBInt8, base), I.SumSizeArray('sum', I.UBInt32, base),
                    I.OptionalField('maybe', base, lambda *a: True)]

    both = dict(spec, fields=spec['fields'] + extra['fields'])
    for values in case['values']:
        all_values = dict(values, **case['extra_values'])

        def make():
            kw = b.kwargs(spec, values)
            kw.update(b.kwargs(extra, case['extra_values']))
            return derived(**kw)

        want = M.encode(both, all_values)
        obj = make()
        wire = derived.write_to_string(obj)
        obs.equal(wire, want, 'derived', "a derived %r", both)
        obs.equal([base.sizeof(obj), derived.sizeof(obj), I.Struct.sizeof(obj)], [len(want)] * 3, 'sizeof', "a derived %r", both)
        obs.equal(tuple(derived.min_max_sizeof())[0], M.bounds(both)[0], 'bounds', "smallest size of %r", both)
        plain = b.make(spec, values)
        small = M.encode(spec, values)
        out = Outer(first=1, one=make(), many=[make(), plain], sum=[plain, make(), make()], maybe=make())
        wire = Outer.write_to_string(out)
        n = len(want) * 2 + len(small)
        expected = b'\1' + want + b'\2' + want + small + M.encode_num('UBInt32', n) + small + want + want + want
        obs.equal(wire, expected, 'derived', "a struct that holds derived objects of %r", both)
        obs.equal(Outer.sizeof(out), len(expected), 'sizeof', "a struct that holds derived objects of %r", both)
        obs.equal([I.VarSizeArrayMarshal(I.UBInt16, base).sizeof(out.many), I.FixedSizeArrayMarshal(2, base).sizeof(out.many),
                   I.SumSizeArrayMarshal(I.UBInt16, base).sizeof(out.many)], [2 + len(want + small), len(want + small), 2 + len(want + small)],
                  'sizeof', "arrays that hold derived objects of %r", both)
        obs.hit('derived')
