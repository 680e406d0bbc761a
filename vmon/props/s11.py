"""Printing an object shows the values it has and changes nothing."""
import copy as copying
import random

from vmon import bufcheck, bufgen, bufmodel, structgen
from vmon import structmodel as M
from vmon.core import same

ID = 'S11'
RULE = ("random struct classes: objects built (also in part), read, changed at any depth, copied, given to other objects and written "
        "are printed in between, with and without formats in the context, and compared with a text made of what was done to them; "
        "random buffer classes: the same with their attributes; helpers' texts")
CASES = {'quick': 3500, 'thorough': 200000}
REQUIRE = {'prints': 40000, 'formats': 8000, 'partly_set': 5000, 'nested_prints': 6000, 'lazy_hidden': 800, 'lazy_shown': 1200,
           'nested_changes': 250, 'derived': 50, 'buffer_prints': 2500, 'buffer_nested': 1000, 'after_read': 2500, 'copies': 700,
           'lists_changed': 68, 'references': 2500, 'held': 1800, 'unrelated': 10, 'helpers': 50, 'class_formats': 2000, 'constants': 5000}
ASSUMPTIONS = ["elements of arrays and values given to number fields are numbers"]

OPTIONS = [{}, {}, {'int_repr_format': '0x%x'}, {'int_repr_format': '%05d', 'float_repr_format': '%.2f'}, {'float_repr_format': '%g'},
           {'int_repr_format': '<%o>', 'float_repr_format': '%e', 'other': 1}, {'struct': None, 'int_repr_format': '%+d'}]


def generate(rng, tier):
    r = rng.random()
    if r < 0.03:
        return {'what': 'helpers', 'n': [rng.randint(0, 1 << rng.choice((3, 40, 62))) for _ in range(2)], 'text': 'k%d' % rng.randint(0, 99)}
    if r < 0.25:
        case = bufcheck.gen_case(rng)
        case['what'] = 'buffer'
        case['seed'] = rng.getrandbits(30)
        return case
    weights = {'lazy': rng.choice((1, 3)), 'opt': 1.2, 'const': 1.5, 'bits': 1.2, 'struct': rng.choice((1, 3)), 'varr': 2, 'sel': 1.5}
    for _ in range(50):
        g = structgen.Gen(rng, size=rng.choice((2, 4, 6)), depth=rng.choice((0, 1, 2, 3)), weights=weights)
        spec = g.spec()
        if not reaches_lazy(spec):
            break
    else:
        return {'what': 'helpers', 'n': [1, 2], 'text': 'x'}
    values = []
    for _ in range(3):
        values.append(g.values(spec))
    return {'what': 'struct', 'spec': spec, 'values': values, 'seed': rng.getrandbits(30), 'style': rng.getrandbits(20)}


def specs_in(spec):
    yield spec
    for f in M.everything(spec):
        m = f.get('m')
        while m and m[0] in ('farr', 'varr', 'sarr'):
            m = m[2]
        if m and m[0] == 'struct':
            yield m[1]
        elif m and m[0] in ('sel', 'fsel'):
            for s in M.choices(m):
                yield s


def names_used(x, out):
    """Names that pointers, predicates and selectors of one struct refer to."""
    if isinstance(x, dict):
        if 'pred' in x:
            out.add(x['pred'][1])
        for k, v in x.items():
            if k != 'value':
                names_used(v, out)
    elif isinstance(x, list):
        if x and x[0] == 'ptr':
            out.add(x[1])
        elif x and x[0] == 'attr':
            out.add(x[1])
        for y in x:
            names_used(y, out)


def reaches_lazy(spec):
    """Whether reading may use a field in a lazy group: that decodes it."""
    out = set()
    names_used(spec, out)
    for s in specs_in(spec):
        for f in s['fields']:
            if f['k'] == 'lazy' and any(x.get('name') in out for x in M.flat(f['fields'])):
                return True
    return False


def nontrivial(case):
    return case['what'] != 'helpers'


def check(case, obs):
    globals()['check_' + case['what']](case, obs)


# -- structs ---------------------------------------------------------------------------------------

def hide(spec, values):
    """Marks the lazy groups of what was just read."""
    for i, f in enumerate(spec['fields']):
        if f['k'] == 'lazy':
            values.setdefault('#lazy', set()).add(i)
        for x in M.flat([f]):
            if 'm' in x and 'value' not in x and values.get(x['name']) is not None:
                hide_value(x['m'], values[x['name']])


def hide_value(m, v):
    if m[0] in ('farr', 'varr', 'sarr'):
        for x in v:
            hide_value(m[2], x)
    elif m[0] == 'struct':
        hide(m[1], v)
    elif m[0] in ('sel', 'fsel'):
        hide(M.chosen(m, v[0]), v[1])


def show(values):
    """Everything that writing decodes."""
    if isinstance(values, dict):
        values.pop('#lazy', None)
        for k, v in values.items():
            if k != '#spec':
                show(v)
    elif isinstance(values, list):
        for v in values:
            show(v)


def use(spec, values, name):
    for i, f in enumerate(spec['fields']):
        if f['k'] == 'lazy' and any(x.get('name') == name for x in M.flat(f['fields'])):
            if i in values.get('#lazy', ()):
                values['#lazy'].discard(i)


def start(spec, given):
    """What a new object holds."""
    out = {}
    for f in M.named(spec):
        if 'value' in f:
            out[f['name']] = f['value']
        elif f['name'] in given:
            out[f['name']] = copying.deepcopy(given[f['name']])
        else:
            out[f['name']] = copying.deepcopy(f.get('default'))
    return out


def full(spec, values):
    """`values` as they are in objects made of them: with defaults and constants."""
    out = start(spec, values)
    for f in M.named(spec):
        if 'm' in f and 'value' not in f and out[f['name']] is not None:
            out[f['name']] = full_value(f['m'], out[f['name']])
    return out


def full_value(m, v):
    if m[0] in ('farr', 'varr', 'sarr'):
        return [full_value(m[2], x) for x in v]
    if m[0] == 'struct':
        return full(m[1], v)
    if m[0] in ('sel', 'fsel'):
        return [v[0], full(M.chosen(m, v[0]), v[1])]
    return v


def check_struct(case, obs):
    from infi.instruct.base import EMPTY_CONTEXT, ReadOnlyContext, WritableContext
    spec = case['spec']
    rng = random.Random(case['seed'])
    b = M.Builder(case['style'])
    cls = b.build(spec)
    gen = structgen.Gen(rng, depth=0)
    objects = []           # [object, values]
    log = []

    def new():
        values = rng.choice(case['values'])
        given = dict((k, v) for k, v in values.items() if rng.random() < 0.6)
        log.append(['new', given])
        return [cls(**b.kwargs(spec, given)), full(spec, given)]

    def read():
        data = M.encode(spec, rng.choice(case['values']))
        log.append(['read', data])
        values = M.decode(spec, M.Reader(data))
        hide(spec, values)
        obs.hit('after_read')
        return [cls.create_from_string(data), values]

    def put(o, v):
        """Changes something in the object o, whose values are v, at any depth."""
        s = spec
        path = []
        while True:
            names = [f for f in M.named(s) if 'value' not in f]
            if not names:
                return
            f = rng.choice(names)
            use(s, v, f['name'])
            here = getattr(o, f['name'])
            path.append(f['name'])
            m = f.get('m')
            was = v[f['name']]
            if m and m[0] in ('farr', 'varr', 'sarr') and was and rng.random() < 0.7:
                if rng.random() < 0.3:
                    obs.hit('lists_changed')
                    del here[0]
                    del was[0]
                    log.append(['delete'] + path)
                    return
                i = rng.randrange(len(was))
                m2, inner, real = m[2], was[i], here[i]
                while m2[0] in ('farr', 'varr', 'sarr') and inner:
                    i2 = rng.randrange(len(inner))
                    m2, inner, real = m2[2], inner[i2], real[i2]
                if m2[0] in ('sel', 'fsel'):
                    m2, inner = ['struct', M.chosen(m2, inner[0])], inner[1]
                if m2[0] == 'struct':
                    s, v, o = m2[1], inner, real
                    continue
                return
            if m and m[0] in ('struct', 'sel', 'fsel') and was is not None and rng.random() < 0.8:
                o = here
                s, v = (m[1], was) if m[0] == 'struct' else (M.chosen(m, was[0]), was[1])
                s = v.get('#spec', s)
                continue
            if rng.random() < 0.25:
                value = None
            elif not m:
                value = rng.choice((0, 1, rng.getrandbits(8)))       # wider ones are for those that check writing
            elif m[0] in ('num', 'pstr', 'fbuf', 'map') or m[0] in ('vstr', 'vbuf') and m[1][0] != 'ptr':
                value = gen.value(m, M.Ctx({}, {}))
            elif m[0] == 'struct' and rng.random() < 0.7:
                value = derive(m[1], f)
                if value is not None:
                    setattr(o, f['name'], value[0])
                    v[f['name']] = value[1]
                    obs.hit('derived')
                    log.append(['derived'] + path)
                    return
            else:
                return
            log.append(['set'] + path + [value])
            setattr(o, f['name'], value)
            v[f['name']] = value
            if len(path) > 1:
                obs.hit('nested_changes')
            return

    def derive(s, f):
        """An object of a class derived from that of s, or of an unrelated one, with other fields."""
        base = b.build(s)
        name = '%sDerived%d' % (s['name'], len(b.classes))
        fields = s['fields']
        if rng.random() < 0.35:
            base = None
            if rng.random() < 0.5:
                fields = fields[:rng.randint(0, len(fields))]
            obs.hit('unrelated')
        other = {'name': name, 'fields': [{'k': 'f', 'name': 'extra', 'm': ['num', 'SBInt16']}] + fields}
        if rng.random() < 0.5:
            other['ctx'] = {'int_repr_format': '[%d]'}
        elif s.get('ctx'):
            other['ctx'] = s['ctx']
        sub = b.build(other, base=base)
        values = {'extra': rng.randint(-100, 100)}
        obj = sub(**values)
        out = full(other, values)
        out['#spec'] = other
        return obj, out

    holders = []

    def hold(o, v):
        """The object in another one, where one of a derived class is declared."""
        if not holders:
            sub = {'name': '%sMore' % spec['name'], 'fields': [{'k': 'f', 'name': 'extra', 'm': ['num', 'UBInt16']}] + spec['fields']}
            b.build(sub, base=cls)
            holder = {'name': '%sHolder' % spec['name'], 'fields': [{'k': 'f', 'name': 'held', 'm': ['struct', sub]},
                                                                    {'k': 'f', 'name': 'last', 'm': ['num', 'UBInt8']}]}
            holders.append((holder, b.build(holder)))
        holder, kind = holders[0]
        values = {'held': dict(v, **{'#spec': spec}), 'last': 3}
        want = M.text(holder, values)
        got = repr(kind(held=o, last=3))
        obs.expect(got == want, 'held', "got %r, want %r, for %r after %r", got, want, spec, log)
        obs.hit('held')

    def show_it(o, v):
        options = rng.choice(OPTIONS)
        context = rng.choice((ReadOnlyContext, WritableContext))(dict(options))
        calls = len(b.calls)
        what = "%r after %r" % (spec, log)
        want = M.text(spec, v)
        got = repr(o)
        obs.expect(got == want, 'text', "got %r, want %r, for %s", got, want, what)
        way = rng.randrange(3)
        got = [lambda: cls.to_repr(o), lambda: cls.to_repr(o, EMPTY_CONTEXT), lambda: "{0!r}".format(o)][way]()
        obs.expect(got == want, 'text', "got %r the second time, want %r, for %s", got, want, what)
        wanted = M.text(spec, v, M.Ctx(None, dict(options)))
        got = cls.to_repr(o, context)
        obs.expect(got == wanted, 'format', "got %r, want %r, with %r for %s", got, wanted, options, what)
        obs.equal(context.get_dict(), options, 'context', "context after printing %s", what)
        obs.expect(repr(o) == want, 'text', "got %r afterwards, want %r, for %s", repr(o), want, what)
        obs.expect(len(b.calls) == calls, 'calls', "printing called %r, for %s", b.calls[calls:], what)
        obs.hit('prints', 4)
        if rng.random() < 0.15:
            hold(o, v)
        if options:
            obs.hit('formats')
        if want.count('(') > 1:
            obs.hit('nested_prints')
        if '<not set>' in want:
            obs.hit('partly_set')
        if '<lazy>' in want:
            obs.hit('lazy_hidden')
        elif any(f['k'] == 'lazy' for f in spec['fields']):
            obs.hit('lazy_shown')
        if '(const)' in want:
            obs.hit('constants')
        if any(s.get('ctx') for s in specs_in(spec)):
            obs.hit('class_formats')

    objects = [new(), read()]
    for o, v in objects:
        show_it(o, v)
    for _ in range(rng.randint(2, 12)):
        k = rng.randrange(len(objects))
        o, v = objects[k]
        r = rng.random()
        if r < 0.08:
            objects[k] = new()
        elif r < 0.2:
            objects[k] = read()
        elif r < 0.7:
            log.append(['change', k])
            put(o, v)
        elif r < 0.78:
            log.append(['copy', k])
            objects.append([copying.deepcopy(o), copying.deepcopy(v)])
            obs.hit('copies')
        elif r < 0.9:
            log.append(['write', k])
            if '#spec' not in repr(v):
                try:
                    M.encode(spec, v)
                except Exception:
                    continue
                cls.write_to_string(o)
                show(v)
        else:
            log.append(['nothing', k])
        for o, v in objects if rng.random() < 0.3 else [objects[k]]:
            show_it(o, v)
    # and printing has not changed what is there
    for o, v in objects:
        if '#spec' not in repr(v):
            for f in M.named(spec):
                got, want = getattr(o, f['name']), v[f['name']]
                if 'm' in f:
                    got, want = b.plain_value(f['m'], got), bare(want)
                obs.expect(same(got, want), 'changed', "%s is %r, should be %r, after %r of %r", f['name'], got, want, log, spec)


def bare(v):
    if isinstance(v, dict):
        return dict((k, bare(x)) for k, x in v.items() if k[0] != '#')
    if isinstance(v, list):
        return [bare(x) for x in v]
    return v


# -- buffers ---------------------------------------------------------------------------------------

def check_buffer(case, obs):
    from infi.instruct.utils.safe_repr import safe_repr
    spec, values = case['spec'], case['values']
    rng = random.Random(case['seed'])
    real = bufcheck.Real(spec, obs)
    cls = real.cls
    names = [f['name'] for f in bufmodel.all_fields(spec)]
    for f in bufmodel.all_fields(spec):
        ref = getattr(cls, f['name'])
        obs.expect(isinstance(repr(ref), str) and isinstance(safe_repr(ref), str), 'reference', "%s of %r", f['name'], spec)
        obs.hit('references')

    def show_it(obj, what):
        before = dict(vars(obj))
        copied = copying.deepcopy(before)
        got = repr(obj)
        parts = ["%s=%r" % (n, getattr(obj, n)) for n in names]
        head = "%s.%s(" % (cls.__module__, cls.__name__)
        whole = len(head) + sum(map(len, parts)) + 2 * (max(len(parts), 1) - 1) + 1
        obs.expect(got.startswith(head) and got.endswith(')') and len(got) == whole and all(p in got for p in parts), 'buffer-text',
                   "%s prints as %s, for %s of %r", parts, got, what, spec)
        obs.expect(same(sorted(before), sorted(vars(obj))) and all(vars(obj)[k] is before[k] for k in before), 'buffer-changed',
                   "printing changed %r to %r", before, vars(obj))
        obs.expect(repr(copied.get(names[0])) == repr(vars(obj).get(names[0])) if names else True, 'buffer-changed', "%r", spec)
        obs.hit('buffer_prints')
        if any('(' in p.split('=', 1)[1] for p in parts):
            obs.hit('buffer_nested')

    obj = cls()
    show_it(obj, 'an empty object')
    obj = real.make(values)
    show_it(obj, 'a new object')
    data, stored, err = bufcheck.model_encode(spec, values)
    if err is None:
        obj.pack()
        show_it(obj, 'a packed object')
        other = cls()
        other.unpack(data)
        show_it(other, 'an unpacked object')
        show_it(copying.deepcopy(other), 'a copy')
        try:
            other.unpack(data[:rng.randint(0, len(data))])
        except Exception:
            pass
        show_it(other, 'an object that was read in part')
    for n in names:
        if rng.random() < 0.3:
            setattr(obj, n, rng.choice((None, 5, u'\xe9', b'x', [1, None], object)))
    show_it(obj, 'a changed object')


# -- helpers ---------------------------------------------------------------------------------------

class Unprintable(object):
    def __init__(self, error):
        self.error = error

    def __repr__(self):
        raise self.error


def check_helpers(case, obs):
    import sys
    from infi.instruct.base import MinMax, ReadOnlyContext, WritableContext
    from infi.instruct.utils.safe_repr import safe_repr
    a, b = sorted(case['n'])
    obs.equal(str(MinMax(a, b)), "MinMax(min=%d, max=%d)" % (a, b), 'minmax', "text of the sizes")
    obs.equal(repr(MinMax(a)), "MinMax(min=%d, max=unbounded)" % a, 'minmax', "text of unbounded sizes")
    obs.equal(repr(MinMax(a, sys.maxsize)), "MinMax(min=%d, max=unbounded)" % a, 'minmax', "text of unbounded sizes")
    for kind in (ReadOnlyContext, WritableContext):
        obs.equal(repr(kind({case['text']: a})), "%s(%s=%d)" % (kind.__name__, case['text'], a), 'context', "text of a context")
        text = repr(kind({'a': Unprintable(ValueError()), 'b': 'x'}))
        obs.expect(text.startswith(kind.__name__ + '(') and "b='x'" in text and 'a=' in text and 'Unprintable' in text, 'context', "%s", text)
    for value in (a, case['text'], None, [b], u'\xe9', 2.5):
        obs.equal(safe_repr(value), repr(value), 'safe-repr', "%r", value)
    for error in (ValueError('x'), KeyError(), RuntimeError(), AttributeError()):
        text = safe_repr(Unprintable(error))
        obs.expect('Unprintable' in text and 'repr error' in text, 'safe-repr', "%r", text)
    obs.hit('helpers')
