"""Lazy fields behave like plain ones, except for when they are decoded."""
import copy as copying

from vmon import structgen
from vmon import structmodel as M
from vmon.core import same

ID = 'S07'
RULE = ("random fixed-size classes declared twice, plainly and with some fields in Lazy groups; the same histories of constructing, reading, "
        "getting, setting, copying, sizing, printing and writing several objects of both, with good, malformed and truncated input; "
        "decodes are counted")
CASES = {'quick': 6000, 'thorough': 300000}
REQUIRE = {'large_groups': 6, 'histories': 2000, 'gets': 12000, 'sets': 6000, 'writes': 4000, 'reprs': 1500, 'reprs_lazy': 500, 'malformed': 1500, 'malformed_access': 1000,
           'good_after_malformed': 150, 'truncated': 6000, 'copies': 1000, 'const_refused': 250, 'groups': 2000, 'nested_lazy': 120,
           'decodes_counted': 400, 'changed_in_place': 250}


def generate(rng, tier):
    if rng.random() < 0.1:
        return {'what': 'count', 'n': rng.randint(1, 4), 'ops': [rng.choice(('get', 'set', 'write', 'size', 'repr', 'other', 'copy'))
                                                                for _ in range(rng.randint(1, 6))],
                'which': [rng.randrange(8) for _ in range(6)], 'fail': rng.random() < 0.3}
    big = rng.random() < 0.04
    g = structgen.Gen(rng, size=60 if big else rng.choice((2, 4, 6)), depth=0 if big else rng.choice((0, 1, 2)), weights={'lazy': 0, 'const': 3, 'map': 7, 'farr': 4, 'bits': 1.5})
    spec = g.spec(fixed=True, ctx=False)
    for f in M.named(spec):
        if f.get('k') == 'f' and 'm' in f and 'force' not in f and 'among' not in f and not any(
                x in repr(f['m']) for x in ("'ptr'", "'fsel'", "'sel'")) and rng.random() < 0.5:
            f['default'] = g.value(f['m'], M.Ctx({}, {}))
    lazy = wrap(rng, spec)
    names = [f for f in M.named(spec)]
    objects = [g.values(spec) for _ in range(3)]
    inputs = [M.encode(spec, v) for v in objects]
    inputs += [structgen.mutate(rng, inputs[0]), flip(rng, inputs[1]), flip(rng, inputs[2])]
    ops = []
    for _ in range(rng.randint(4, 25)):
        r = rng.random()
        who = rng.randrange(3)
        f = rng.choice(names) if names else None
        if r < 0.12:
            ops.append(['new', who, dict((k, v) for k, v in g.values(spec).items() if rng.random() < 0.7)])
        elif r < 0.3:
            ops.append(['read', who, rng.choice(inputs)])
            if rng.random() < 0.3:
                ops.append(['repr', who])
            if rng.random() < 0.6 and f:
                ops.append(['get', who, f['name']])
                ops.append(rng.choice((['get', who, rng.choice(names)['name']], ['write', who], ['get', who, f['name']])))
        elif r < 0.55 and f:
            ops.append(['get', who, f['name']])
        elif r < 0.75 and f:
            v = f['value'] if 'value' in f and rng.random() < 0.5 else g.value(f['m'], M.Ctx({}, {})) if 'm' in f else rng.getrandbits(
                f['size'] if 'size' in f else sum(b - a for a, b in f['slices']))
            if f.get('k') == 'const' and (f['m'][0] == 'struct' or M.is_float(f['m'][-1]) if f['m'][0] == 'num' else f['m'][0] != 'num'):
                continue
            ops.append(['set', who, f['name'], v])
        elif r < 0.82:
            ops.append(['write', who])
        elif r < 0.86 and f:
            ops.append(['damage', who])
        elif r < 0.9:
            ops.append(['size', who])
        elif r < 0.95:
            ops.append(['repr', who])
        else:
            ops.append(['copy', who, rng.randrange(3)])
    return {'what': 'history', 'spec': spec, 'lazy': lazy, 'ops': ops, 'style': rng.getrandbits(20), 'cut': inputs[0]}


def flip(rng, data):
    data = bytearray(data)
    for _ in range(rng.randint(1, 2)):
        if data:
            data[rng.randrange(len(data))] ^= 1 << rng.randrange(8)
    return bytes(data)


def wrap(rng, spec, nested=False):
    fields, group, more = [], None, rng.choice((0.65, 0.65, 0.97))
    for f in spec['fields']:
        if f.get('m', [''])[0] == 'struct' and f['k'] == 'f' and rng.random() < 0.5:
            f = dict(f, m=['struct', wrap(rng, f['m'][1], True)])
        if group is not None and rng.random() < more:
            group.append(f)
        elif rng.random() < 0.6:
            group = [f]
            fields.append({'k': 'lazy', 'fields': group})
        else:
            group = None
            fields.append(f)
    return dict(spec, fields=fields)


def check(case, obs):
    if case['what'] == 'count':
        return check_count(case, obs)
    spec, lazy = case['spec'], case['lazy']
    eager_b, lazy_b = M.Builder(case['style']), M.Builder(case['style'] + 1)
    eager, cls = eager_b.build(spec), lazy_b.build(lazy)
    groups = {}            # name: number of its lazy group
    places = {}            # name: number of the declaration it is in
    for i, f in enumerate(lazy['fields']):
        for x in M.flat([f]):
            places[x.get('name')] = i
        if f['k'] == 'lazy':
            obs.hit('groups')
            if len(f['fields']) > 32:
                obs.hit('large_groups')
            for x in M.flat(f['fields']):
                if 'name' in x:
                    groups[x['name']] = i
    if "'lazy'" in repr([f for f in lazy['fields'] if f['k'] != 'lazy']) or repr(lazy).count("'lazy'") > len(set(groups.values())):
        obs.hit('nested_lazy')
    obs.equal(tuple(cls.min_max_sizeof()), tuple(eager.min_max_sizeof()), 'size', "%r", lazy)
    fields = dict((f['name'], f) for f in M.named(spec))
    size = M.bounds(spec)[0]

    for n in range(size):
        try:
            x = cls.create_from_string(case['cut'][:n])
        except Exception:
            obs.hit('truncated')
        else:
            obs.fail('truncated', "%d of the %d bytes of %r are read as %r" % (n, size, lazy, x))

    # slots: (eager object or None, lazy object, malformed groups, touched groups)
    slots = [[eager(), cls(), set(), set(groups.values())] for _ in range(3)]
    obs.hit('histories')
    log = []

    lazy_fields = dict((f['name'], f) for f in M.named(lazy))

    def real(b, name, v):
        f = (lazy_fields if b is lazy_b else fields)[name]
        return b.value_of(f['m'], v) if 'm' in f else v

    def plain(b, name, v):
        f = (lazy_fields if b is lazy_b else fields)[name]
        return b.plain_value(f['m'], v) if 'm' in f else v

    for op in case['ops']:
        log.append(op)
        what, who = op[0], op[1]
        e, l, bad, touched = slots[who]
        text = "%r of %r after %r" % (op, lazy, log)

        def force(names):
            # Whether an operation that failed has decoded the groups or not is not specified.
            for name in names:
                getattr(l, name)
                touched.add(groups.get(name))
        if what == 'new':
            slots[who] = [eager(**eager_b.kwargs(spec, op[2])), cls(**lazy_b.kwargs(lazy, op[2])), set(), set(groups.values())]
        elif what == 'read':
            data = op[2]
            try:
                new = cls.create_from_string(data)
            except Exception:
                # what is not in a lazy group is checked at once, and so is the length
                r = M.Reader(data)
                try:
                    M.decode(spec, r)
                except M.ModelError:
                    obs.hit('malformed')
                    continue
                raise
            bad = set()
            r, values = M.Reader(data), {}
            for i, f in enumerate(lazy['fields']):
                start = r.pos
                n = M.field_bounds(f)[0]
                try:
                    M.decode_field(dict(f), r, values, M.TOP.enter(spec, values))
                except M.ModelError:
                    if f['k'] != 'lazy' and not inner_lazy(f):
                        obs.fail('accepts', text + ": malformed input is accepted")
                    bad.add(i)
                r.pos = start + n
            if len(data) < size:
                obs.fail('truncated', text)
            if bad:
                obs.hit('malformed')
            slots[who] = [None if bad else eager.create_from_string(data), new, bad, set()]
        elif what == 'get':
            name = op[2]
            where = places[name]
            if where in bad:
                try:
                    v = plain(lazy_b, name, getattr(l, name))
                except Exception:
                    obs.hit('malformed_access')
                    continue
                if inner_lazy(lazy['fields'][where]):
                    continue             # what is wrong may be in a part that is still lazy
                obs.fail('malformed', text + ": got %r from malformed input" % (v,))
            if e is None:
                obs.hit('good_after_malformed')
                plain(lazy_b, name, getattr(l, name))
            else:
                want = plain(eager_b, name, getattr(e, name))
                obs.equal(plain(lazy_b, name, getattr(l, name)), want, 'get', "%s", text)
            touched.add(where)
            obs.hit('gets')
        elif what == 'set':
            name, v = op[2], op[3]
            if places[name] in bad:
                continue
            results = []
            for x, b in ((e, eager_b), (l, lazy_b)):
                if x is None:
                    continue
                new = real(b, name, v)
                try:
                    setattr(x, name, new)
                    results.append('set')
                except Exception as ex:
                    results.append(type(ex).__name__)
            if len(results) == 2:
                obs.equal(results[1], results[0], 'set', "%s", text)
            if results[-1] == 'set':
                touched.add(groups.get(name))
                obs.hit('sets')
                if 'm' in fields[name] and not same(plain(lazy_b, name, getattr(l, name)), v):
                    obs.fail('set', text + ": reads back as %r" % (getattr(l, name),))
            else:
                obs.hit('const_refused')
                force([name])
        elif what == 'damage':
            # lists are changed in place
            if e is None or bad:
                continue
            for name in fields:
                for x in (e, l):
                    v = getattr(x, name)
                    if isinstance(v, list) and len(v) > 1 and 'value' not in fields[name]:
                        v[:] = v[1:] + [v[0]]
                        obs.hit('changed_in_place')
            touched.update(groups.values())
        elif what == 'write':
            results = []
            for x, c in ((e, eager), (l, cls)):
                try:
                    results.append(c.write_to_string(x) if x is not None else None)
                except Exception as ex:
                    results.append(type(ex).__name__)
            if bad:
                if isinstance(results[1], bytes):
                    obs.fail('malformed', text + ": %r is written for malformed input" % (results[1],))
                obs.hit('malformed_access')
            else:
                obs.equal(results[1], results[0], 'write', "%s", text)
                if isinstance(results[1], bytes):
                    touched.update(groups.values())
                else:
                    force(groups)
                obs.hit('writes')
        elif what == 'size':
            if e is not None:
                results = []
                for x, c in ((e, eager), (l, cls)):
                    try:
                        results.append(c.sizeof(x))
                    except Exception as ex:
                        results.append('error')
                if results[0] != 'error':
                    obs.equal(results[1], results[0], 'sizeof', "%s", text)
        elif what == 'repr' and e is not None and not any(inner_lazy(f) for f in lazy['fields']):
            want = eager.to_repr(e)
            got = cls.to_repr(l)
            obs.hit('reprs')
            if '<lazy>' in got:
                obs.hit('reprs_lazy')
                hidden = set(groups.values()) - touched
                expected = lazy_text(lazy, eager_b, e, hidden)
                obs.expect(got == expected and hidden, 'repr', "%s: got %r, want %r", text, got, expected)
            else:
                obs.equal(got, want, 'repr', "%s", text)
        elif what == 'copy':
            slots[op[2]] = [copying.deepcopy(e), copying.deepcopy(l), set(bad), set(touched)]
            obs.hit('copies')
    for e, l, bad, touched in slots:
        if e is not None and not bad:
            for name in fields:
                obs.equal(plain(lazy_b, name, getattr(l, name)), plain(eager_b, name, getattr(e, name)), 'get', "%s of %r after %r", name, lazy, log)


def inner_lazy(f):
    if f['k'] == 'lazy':
        return any(inner_lazy(x) for x in f['fields'])
    return 'm' in f and any(y['k'] == 'lazy' for y in walk(f['m']))


def walk(m):
    if m[0] == 'struct':
        for f in m[1]['fields']:
            yield f
            if 'm' in f:
                for y in walk(f['m']):
                    yield y
    elif m[0] == 'farr':
        for y in walk(m[2]):
            yield y


def lazy_text(lazy, b, e, hidden):
    """The text of the plain object with the fields of the hidden groups hidden."""
    out = []
    texts = {}
    values = b.plain({'name': '', 'fields': [x for f in lazy['fields'] for x in (f['fields'] if f['k'] == 'lazy' else [f])]}, e)
    ctx = M.TOP.enter(lazy, values)
    for i, f in enumerate(lazy['fields']):
        if i in hidden and f['k'] == 'lazy':
            for x in M.flat(f['fields']):
                if 'name' in x:
                    out.append('<lazy>')
                elif x['k'] == 'bpad':
                    out.append("<%d bits padding>" % x['size'])
                else:
                    out.append("<%d bytes padding>" % x['size'])
        else:
            out.append(M.field_text(f, values, ctx))
    return "%s(%s)" % (lazy['name'], ", ".join(out))


def check_count(case, obs):
    """Nothing is decoded before it is needed, and nothing twice."""
    import infi.instruct as I
    decoded = []

    class Probe(I.Marshal):
        def __init__(self, name):
            self.name = name

        def create_from_stream(self, stream, context=None, *args, **kwargs):
            data = stream.read(2)
            decoded.append(self.name)
            if data == b'XX':
                raise ValueError('bad')
            return data

        def write_to_stream(self, obj, stream, context=None):
            stream.write(obj)

        def sizeof(self, obj):
            return 2

        def min_max_sizeof(self):
            return I.MinMax(2, 2)

        def to_repr(self, obj, context=None):
            return repr(obj)

    n = case['n']
    g1 = [I.Field('a%d' % i, Probe('a%d' % i)) for i in range(n)]
    g2 = [I.Field('b%d' % i, Probe('b%d' % i)) for i in range(n)]

    class S(I.Struct):
        _fields_ = [I.Field('x', Probe('x')), I.Lazy(*g1), I.Field('y', Probe('y')), I.Lazy(*g2), I.Field('z', Probe('z'))]

    names = ['x'] + ['a%d' % i for i in range(n)] + ['y'] + ['b%d' % i for i in range(n)] + ['z']
    data = dict((name, b'%02d' % i) for i, name in enumerate(names))
    if case['fail']:
        data['b%d' % (n - 1)] = b'XX'
    other = S.create_from_string(b''.join(data[k] for k in names))
    del decoded[:]
    obj = S.create_from_string(b''.join(data[k] for k in names))
    obs.equal(decoded, ['x', 'y', 'z'], 'decoded', "while reading")
    for op, which in zip(case['ops'], case['which']):
        before = list(decoded)
        name = names[which % len(names)]
        if op in ('get', 'set', 'write'):
            try:
                if op == 'get':
                    obs.equal(getattr(obj, name), data[name], 'get', "%s", name)
                elif op == 'set':
                    setattr(obj, name, b'%02d' % (which + 50))
                    data[name] = b'%02d' % (which + 50)
                else:
                    obs.equal(S.write_to_string(obj), b''.join(data[k] for k in names), 'write', "after %r", case['ops'])
            except ValueError:
                obs.expect(case['fail'] and (op == 'write' or name[0] == 'b'), 'error', "%s %s", op, name)
                continue
            obs.expect(not (case['fail'] and (op == 'write' or name[0] == 'b')), 'error', "%s %s gave no error", op, name)
        elif op == 'size':
            obs.equal(S.sizeof(obj), 2 * len(names), 'sizeof', "lazily")
            obs.equal(decoded, before, 'decoded', "by sizeof")
        elif op == 'repr':
            S.to_repr(obj)
            obs.equal(decoded, before, 'decoded', "by printing")
        elif op == 'other':
            try:
                getattr(other, name)
            except ValueError:
                pass
            del decoded[:]
            decoded.extend(before)
        elif op == 'copy':
            obj = copying.deepcopy(obj)
        if not case['fail']:
            for k in names:
                obs.expect(decoded.count(k) <= 1, 'decoded', "%s is decoded %d times by %r", k, decoded.count(k), case['ops'])
            if op == 'get' and name[0] in 'ab':
                obs.expect([k for k in names if k[0] == name[0]] == [k for k in decoded if k[0] == name[0]], 'decoded', "%r", decoded)
        obs.hit('decodes_counted')
