"""Construction: defaults, keywords, the user's own __init__, inheritance and isolation."""
import copy as copying

from vmon import structgen
from vmon import structmodel as M
from vmon.core import same

ID = 'S09'
RULE = ("random class hierarchies (chains, several bases, mixins; lists, tuples and containers of fields) with random __init__ signatures "
        "and super calls at any level, constructed directly and from streams with random arguments; the same __init__ texts run in plain "
        "Python classes as the oracle; objects, defaults and copies are modified and compared")
CASES = {'quick': 6000, 'thorough': 300000}
REQUIRE = {'constructed': 5000, 'refused': 600, 'defaults': 5000, 'explicit_none': 250, 'keywords': 5000, 'unknown_keywords': 400,
           'user_inits_run': 3000, 'args_given_back': 700, 'inherited_inits': 700, 'kwonly': 250, 'from_stream': 1500, 'mutable_defaults': 350, 'defaults_in_tuples': 100,
           'deep_copies': 1500, 'shared_fields': 400, 'writes': 2500, 'mixins': 200, 'several_bases': 250, 'missing_fields': 30, 'long_signatures': 50, 'named_like_the_base': 200}


def signature(rng, names, others, g, fields):
    """A random __init__."""
    pool = rng.sample(names, min(len(names), rng.randint(0, 2))) + rng.sample(others, rng.randint(0, 2) if len(others) < 10 else rng.randint(0, 20))
    rng.shuffle(pool)
    init = {'pos': [], 'opt': [], 'kwonly': [], 'var': rng.random() < 0.4, 'varkw': rng.random() < 0.5, 'pre': [], 'post': [], 'super': None}
    for n in pool:
        init[rng.choice(('pos', 'opt', 'opt', 'kwonly'))].append(n)
    for where in ('pre', 'post'):
        if fields and rng.random() < 0.3:
            f = rng.choice(fields)
            init[where].append([f['name'], value(g, f)])
        if rng.random() < 0.2:
            init[where].append([rng.choice(others), rng.randint(0, 9)])
    if rng.random() < 0.75:
        init['super'] = {'args': init['var'] and rng.random() < 0.7, 'kw': init['varkw'] and rng.random() < 0.8,
                         'extra': rng.sample(pool, rng.randint(0, len(pool)))}
    return init


def value(g, f):
    if 'm' in f:
        return g.value(f['m'], M.Ctx(Anything(), {}))
    return g.rng.getrandbits(f['size'] if 'size' in f else sum(b - a for a, b in f['slices']))


class Anything(dict):
    def __missing__(self, key):
        return 0


def descriptors(spec):
    return set(f['name'] for f in M.named(spec) if 'value' in f) | set(
        f['name'] for x in spec['fields'] if x['k'] == 'lazy' for f in M.named({'fields': x['fields']}))


def disjoint(g, specs):
    """A spec without a field that a field of another kind in one of specs would take the place of."""
    while True:
        spec = g.spec(ctx=False)
        mine = set(f['name'] for f in M.named(spec))
        if not any(mine & descriptors(s) or descriptors(spec) & set(f['name'] for f in M.named(s)) for s in specs):
            return spec


def settable(spec):
    return [f for f in M.named(spec) if 'value' not in f]


def plain_enough(f):
    return 'm' not in f or not any(x in repr(f['m']) for x in ("'ptr'", "'fsel'", "'sel'"))


def generate(rng, tier):
    if rng.random() < 0.02:
        return {'what': 'missing', 'levels': rng.randint(1, 3), 'mixin': rng.random() < 0.5}
    g = structgen.Gen(rng, size=rng.choice((2, 4, 6)), depth=rng.choice((0, 1, 2)),
                      weights={'sel': 0.3, 'fsel': 0.3, 'farr': 2, 'varr': 1.5, 'struct': 1.5})
    levels, specs = [], []
    others = ['opcode', 'extra', 'flags', 'other', 'kw'] + (['more%d' % i for i in range(16)] if rng.random() < 0.1 else [])
    for i in range(rng.choice((1, 1, 2, 2, 3, 4))):
        lv = {'name': 'C%d' % i, 'fields': None, 'init': None, 'how': rng.choice(('list', 'tuple', 'container', 'mixin', 'list', 'list'))}
        if i == 0 or rng.random() < 0.25:
            spec = disjoint(g, specs + [lv['side']['fields'] for lv in levels if lv.get('side')])
            specs.append(spec)
            if rng.random() < 0.1:
                # a default with something in it that can be changed
                m = rng.choice((['farr', 2, ['num', 'UBInt8']], ['varr', ['num', 'UBInt8'], ['num', 'UBInt16']],
                                ['struct', {'name': g.fresh(), 'fields': [{'k': 'f', 'name': 'inner', 'm': ['num', 'UBInt8']}]}]))
                f = {'k': 'f', 'name': 'deep_default', 'm': ['farr', 2, m]}
                if not any(x['name'] == f['name'] for s in specs for x in M.named(s)):
                    spec['fields'].append(f)
            for f in settable(spec):
                if f.get('k') in ('f', 'opt') and plain_enough(f) and 'force' not in f and 'among' not in f and (rng.random() < 0.4 or f['name'] == 'deep_default'):
                    f['default'] = value(g, f)
                    if isinstance(f['default'], list) and f['m'][0] in ('farr', 'varr', 'sarr') and rng.random() < (0.3 if f['m'][2][0] == 'num' else 0.7):
                        f['default'] = tuple(f['default'])
            lv['fields'] = spec
        if rng.random() < 0.45:
            fs = [f for f in settable(specs[-1]) if plain_enough(f)]
            lv['init'] = signature(rng, [f['name'] for f in settable(specs[-1])], others, g, fs)
        if i and rng.random() < 0.2:
            spec = disjoint(g, specs + [lv['side']['fields'] for lv in levels if lv.get('side')])
            lv['side'] = {'fields': spec, 'init': signature(rng, [f['name'] for f in settable(specs[-1])], others, g, [])
                          if rng.random() < 0.5 else None}
        levels.append(lv)
    if rng.random() < 0.08:
        rng.choice(levels)['name'] = 'Struct'
    spec = specs[-1]
    for lv in levels:
        # a field that another class defines anew may be of another type there
        for init in (lv['init'], (lv.get('side') or {}).get('init')):
            for entry in init['pre'] + init['post'] if init else ():
                if isinstance(entry[1], (list, dict)) and sum(entry[0] in [f['name'] for f in M.named(s)] for s in specs) > 1:
                    entry[1] = 5
    fields = settable(spec)
    calls = []
    for _ in range(rng.randint(1, 4)):
        init = next((lv['init'] for lv in reversed(levels) if lv['init']), None)
        values = g.values(spec)
        kw = dict((f['name'], values[f['name']]) for f in fields if f['name'] in values and rng.random() < 0.6)
        for k in kw:
            if rng.random() < 0.06:
                kw[k] = None
        more = {}
        if init is None:
            if rng.random() < 0.3:
                more[rng.choice(others)] = rng.randint(0, 99)
        else:
            for n in init['pos'] + init['kwonly'] + (init['opt'] if len(others) > 5 else []):
                if n in others and rng.random() < 0.85:
                    more[n] = rng.randint(0, 99)
                elif n in values and rng.random() < 0.8:
                    kw[n] = values[n]
            if rng.random() < 0.3:
                more[rng.choice(others)] = rng.randint(0, 99)
        args = [rng.randint(0, 9) for _ in range(rng.choice((0, 0, 0, 1, 2)))]
        calls.append({'args': args, 'kw': kw, 'more': more})
    return {'what': 'construct', 'levels': levels, 'calls': calls, 'values': g.values(spec), 'style': rng.getrandbits(20)}


def nontrivial(case):
    return case['what'] == 'construct'


MARK = object()


def source(name, init):
    params = ['self'] + init['pos'] + ['%s=None' % n if n in ('kw', 'flags') else "%s='dflt'" % n for n in init['opt']]
    if init['var']:
        params.append('*args')
    elif init['kwonly']:
        params.append('*')
    params += ['%s%s' % (n, "='kwdef'" if n in ('other', 'extra') else '') for n in init['kwonly']]
    if init['varkw']:
        params.append('**kwargs')
    body = ["LOG.append((%r, %s))" % (name, ''.join('%s, ' % n for n in init['pos'] + init['opt'] + init['kwonly']) +
                                      ('args, ' if init['var'] else '') + ('sorted(kwargs.items(), key=lambda x: x[0]), '
                                                                           if init['varkw'] else ''))]
    body += ["self.%s = PRE[%d]" % (n, i) for i, (n, v) in enumerate(init['pre'])]
    if init['super'] is not None:
        s = init['super']
        extra = [n for n in s['extra']]
        body.append("super(CLS[%r], self).__init__(%s)" % (name, ', '.join(
            (['*args'] if s['args'] else []) + ['%s=%s' % (n, n) for n in extra] + (['**kwargs'] if s['kw'] else []))))
    body += ["self.%s = POST[%d]" % (n, i) for i, (n, v) in enumerate(init['post'])]
    return "def __init__(%s):\n    %s\n" % (', '.join(params), '\n    '.join(body))


def make_init(name, init, shared, log, classes):
    ns = dict(shared, LOG=log, CLS=classes)
    exec(source(name, init), ns)
    return ns['__init__']


def names_in(init):
    return init['pos'] + init['opt'] + init['kwonly']


def duplicate_names(init):
    n = names_in(init)
    return len(set(n)) != len(n)


def check(case, obs):
    import infi.instruct as I
    from infi.instruct.errors import StructNotWellDefinedError
    from infi.instruct.struct import FieldListContainer
    if case['what'] == 'missing':
        try:
            type(I.Struct)('Missing', (type('Mixin', (object,), {}), I.Struct) if case['mixin'] else (I.Struct,), {})
        except StructNotWellDefinedError:
            obs.hit('missing_fields')
            return
        obs.fail('missing-fields', "a class without _fields_ was accepted")
    levels = case['levels']
    b = M.Builder(case['style'])
    spec = [lv['fields'] for lv in levels if lv['fields']][-1]
    types = dict((f['name'], f) for lv in levels if lv['fields'] for f in M.named(lv['fields']))
    types.update((f['name'], f) for f in M.named(spec))

    def real(name, v):
        f = types.get(name)
        return b.value_of(f['m'], v) if f and 'm' in f and isinstance(v, (list, dict)) else v

    def shared(init):
        return dict((k.upper(), [real(n, v) for n, v in init[k]]) for k in ('pre', 'post'))

    log, mlog = [], []
    classes, mclasses = {}, {}
    fields = settable(spec)
    names = [f['name'] for f in fields]

    class Root(object):
        def __init__(self, *args, **kwargs):
            for n in names:
                if n in kwargs:
                    setattr(self, n, kwargs.pop(n))

    cls, mcls, objects_of = I.Struct, Root, {}
    for lv in levels:
        bases, mbases, attrs, mattrs = [cls], [mcls], {}, {}
        if lv.get('side'):
            side = lv['side']
            sn = lv['name'] + 'Side'
            sa, sm = {'_fields_': [b.field(f) for f in side['fields']['fields']]}, {}
            if side['init']:
                sh = shared(side['init'])
                sa['__init__'] = make_init(sn, side['init'], sh, log, classes)
                sm['__init__'] = make_init(sn, side['init'], sh, mlog, mclasses)
            classes[sn] = type(I.Struct)(sn, (I.Struct,), sa)
            mclasses[sn] = type(sn, (Root,), sm)
            if cls is not I.Struct:
                bases.append(classes[sn])
                mbases.append(mclasses[sn])
                obs.hit('several_bases')
        if lv['fields']:
            objs = [b.field(f) for f in lv['fields']['fields']]
            objects_of[lv['fields']['name']] = objs
            if lv['how'] == 'mixin':
                bases.insert(0, type('Mixin' + lv['name'], (object,), {'_fields_': objs}))
                mbases.insert(0, type('Mixin' + lv['name'], (object,), {}))
                obs.hit('mixins')
            else:
                attrs['_fields_'] = {'list': list, 'tuple': tuple, 'container': FieldListContainer}[lv['how']](objs)
        if lv['name'] == 'Struct':
            obs.hit('named_like_the_base')
        if lv['init']:
            sh = shared(lv['init'])
            attrs['__init__'] = make_init(lv['name'], lv['init'], sh, log, classes)
            mattrs['__init__'] = make_init(lv['name'], lv['init'], sh, mlog, mclasses)
        cls = type(I.Struct)(lv['name'], tuple(bases), attrs)
        mcls = type(lv['name'], tuple(mbases), mattrs)
        classes[lv['name']], mclasses[lv['name']] = cls, mcls

    # which __init__ is the closest
    inits = dict((lv['name'], lv['init']) for lv in levels)
    inits.update((lv['name'] + 'Side', lv['side']['init']) for lv in levels if lv.get('side'))
    closest, depth = None, 0
    for c in mcls.__mro__:
        if inits.get(c.__name__):
            closest = inits[c.__name__]
            break
        depth += 1
    if closest is not None and len(names_in(closest)) > 8:
        obs.hit('long_signatures')
    if closest is not None and depth:
        obs.hit('inherited_inits')
    b.build({'name': 'unused', 'fields': [{'k': 'pad', 'size': 0, 'char': b'\0'}]})
    made = []
    for call in case['calls']:
        kw = dict((k, real(k, v)) for k, v in call['kw'].items())
        kw.update(call['more'])
        given = dict(kw)
        del log[:], mlog[:]
        # the oracle
        ref = mcls.__new__(mcls)
        rest = dict(kw)
        for n in names:
            setattr(ref, n, rest.pop(n) if n in rest else MARK)
        for n in (names_in(closest) if closest else ()):
            if n in kw and n not in rest:
                rest[n] = kw[n]
                obs.hit('args_given_back')
                if n in closest['kwonly']:
                    obs.hit('kwonly')
        try:
            mcls.__init__(ref, *call['args'], **rest)
            bad = None
        except TypeError as e:
            bad = e
        before = [copying.copy(v) if isinstance(v, list) else v for v in call['args']]
        try:
            obj = cls(*call['args'], **kw)
        except TypeError as e:
            obs.expect(bad is not None, 'construct-refused', "%s(*%r, **%r) failed: %s; inits %s", cls.__name__, call['args'], given, e, inits)
            obs.hit('refused')
            compare_logs(log, mlog, obs)
            continue
        obs.expect(bad is None, 'construct-accepted', "%s(*%r, **%r) should fail: %s", cls.__name__, call['args'], given, bad)
        obs.expect(set(kw) == set(given) and all(kw[k] is given[k] for k in kw), 'arguments-changed', "the caller's keywords changed")
        obs.equal(call['args'], before, 'arguments-changed', "the caller's arguments changed")
        compare_logs(log, mlog, obs)
        obs.hit('constructed')
        obs.hit('user_inits_run', len(log))
        obs.hit('unknown_keywords', len([k for k in call['more'] if not closest]))
        made.append((obj, compare(spec, obj, ref, names, b, obs)))
        obs.hit('explicit_none', len([k for k in call['kw'] if call['kw'][k] is None]))
        obs.hit('keywords', len(call['kw']))
        want = dict((k, v) for k, v in vars(ref).items() if k not in names)
        extra = dict((k, v) for k, v in vars(obj).items() if k not in names and (k in want or k[:1] != '_'))
        obs.equal(extra, want, 'other-attributes', "attributes other than the fields")
        write(spec, cls, obj, b, obs)
        optional = set(f['name'] for f in M.everything(spec) if f.get('k') == 'opt')
        if not ((optional | set(('context', 'stream', 's', 'cls', 'self', 'obj'))) & set(kw)) and not any(
                n in optional for x in inits.values() if x for n in names_in(x) + [n for n, v in x['pre'] + x['post']]):
            stream(case, spec, cls, call, kw, log, mlog, b, obs)
    isolation(spec, cls, made, not any(inits.values()), b, obs)
    shared_fields(case, spec, objects_of, b, obs)


def compare_logs(log, mlog, obs):
    obs.expect(len(log) == len(mlog), 'init-calls', "__init__ calls: %r, want %r", log, mlog)
    for x, y in zip(log, mlog):
        obs.expect(len(x) == len(y) and all(p is q or same(p, q) or unset(p, q) for p, q in zip(x, y)), 'init-arguments',
                   "__init__ got %r, want %r", x, y)


def unset(p, q):
    return q is MARK


def compare(spec, obj, ref, names, b, obs):
    mutable = []
    for f in settable(spec):
        n = f['name']
        want = getattr(ref, n)
        got = getattr(obj, n)
        if want is MARK:
            d = f.get('default')
            if 'm' in f:
                got = b.plain_value(f['m'], got)
            obs.hit('defaults')
            obs.expect(same(got, d), 'default', "default of %s: %r, want %r", n, got, d)
            if isinstance(getattr(obj, n), (list, tuple)) or hasattr(getattr(obj, n), '_fields_'):
                mutable.append(n)
        else:
            obs.expect(got is want or not hasattr(want, '_fields_') and same(got, want), 'keyword', "%s is %r, was set to %r", n, got, want)
    return mutable


def write(spec, cls, obj, b, obs):
    try:
        values = b.plain(spec, obj)
    except Exception:
        return
    try:
        want = M.encode(spec, values)
    except (M.ModelError, TypeError, AttributeError, KeyError, IndexError):
        return
    try:
        got = cls.write_to_string(obj)
    except Exception as e:
        obs.fail('write', "a constructed object cannot be written: %s %s; values %r" % (type(e).__name__, e, values))
    obs.hit('writes')
    obs.equal(got, want, 'bytes', "written")


def stream(case, spec, cls, call, kw, log, mlog, b, obs):
    data = M.encode(spec, case['values'])
    want_log = list(log)
    del log[:]
    try:
        obj = cls.create_from_string(data, I_EMPTY(), *call['args'], **kw)
    except Exception as e:
        obs.fail('from-stream', "cannot be read with arguments %r %r: %s %s" % (call['args'], kw, type(e).__name__, e))
    compare_logs(log, mlog, obs)
    obs.hit('from_stream')
    got, want = settled(spec, M.normal(spec, b.plain(spec, obj)), M.normal(spec, case['values']))
    obs.equal(got, want, 'from-stream', "values read after construction with %r", kw)


def I_EMPTY():
    from infi.instruct.base import EMPTY_CONTEXT
    return EMPTY_CONTEXT


def damage(v):
    """Modifies a mutable value at every depth."""
    if isinstance(v, list):
        for x in v:
            damage(x)
        v.append(77)
        if len(v) > 1:
            v[0] = None
    elif isinstance(v, tuple):
        for x in v:
            damage(x)
    elif hasattr(v, '_fields_'):
        for k in list(vars(v)):
            if not k.startswith('_'):
                damage(vars(v)[k])
                try:
                    setattr(v, k, 'damaged')
                except Exception:
                    pass


def snapshot(spec, obj, b):
    try:
        return b.plain(spec, obj)
    except Exception:
        return None


def isolation(spec, cls, made, simple, b, obs):
    for obj, mutable in made:
        before = snapshot(spec, obj, b)
        if before is None:
            continue
        dup = copying.deepcopy(obj)
        obs.hit('deep_copies')
        obs.expect(type(dup) is type(obj), 'copy', "deepcopy made a %s", type(dup))
        obs.expect(same(snapshot(spec, dup, b), before), 'copy', "deepcopy differs: %r", before)
        for n in [f['name'] for f in settable(spec)]:
            damage(getattr(dup, n))
            try:
                setattr(dup, n, 'damaged')
            except Exception:
                pass
        obs.expect(same(snapshot(spec, obj, b), before), 'copy-shared', "changing a deep copy changed the original: %r", before)
    for obj, mutable in made:
        others = [(x, snapshot(spec, x, b)) for x, m in made if x is not obj]
        for n in mutable:
            obs.hit('mutable_defaults')
            obs.hit('defaults_in_tuples', isinstance(getattr(obj, n), tuple) and any(isinstance(x, list) or hasattr(x, '_fields_') for x in getattr(obj, n)))
            damage(getattr(obj, n))
        for x, before in others:
            obs.expect(same(snapshot(spec, x, b), before), 'default-shared', "changing one object's default changed another object")
    if made and made[0][1] and simple:
        fresh = cls()
        for f in settable(spec):
            if f['name'] in made[0][1]:
                got = getattr(fresh, f['name'])
                if 'default' in f:
                    obs.equal(b.plain_value(f['m'], got), f['default'], 'default-damaged', "default of %s after changing it in an object",
                              f['name'])


def settled(spec, got, want):
    """What an optional field with a default holds when it is not in the input is its own business."""
    open_ones = [f['name'] for f in spec['fields'] if f['k'] == 'opt' and 'default' in f and want[f['name']] is None]
    return [dict((k, v) for k, v in x.items() if k not in open_ones) for x in (got, want)]


def shared_fields(case, spec, objects_of, b, obs):
    """The same field objects in two classes."""
    import infi.instruct as I
    objs = objects_of[spec['name']]
    one = type(I.Struct)('One', (I.Struct,), {'_fields_': list(objs)})
    two = type(I.Struct)('Two', (I.Struct,), {'_fields_': tuple(objs)})
    kw = b.kwargs(spec, case['values'])
    x, y = one(**kw), two()
    obs.hit('shared_fields')
    want = M.encode(spec, case['values'])
    obs.equal(one.write_to_string(x), want, 'shared-fields', "object of the first class")
    for f in settable(spec):
        d = f.get('default')
        got = getattr(y, f['name'])
        obs.equal(b.plain_value(f['m'], got) if 'm' in f else got, d, 'shared-fields', "default in the second class")
    z = two.create_from_string(want)
    got, want = settled(spec, M.normal(spec, b.plain(spec, z)), M.normal(spec, case['values']))
    obs.equal(got, want, 'shared-fields', "read by the second class")
