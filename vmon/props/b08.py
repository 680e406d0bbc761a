"""Objects are independent: histories of operations over several objects, re-entrant and concurrent use."""
import copy
import random

from vmon import bufcheck, bufgen, bufmodel, sched
from vmon.core import Violation, same

ID = 'B08'
RULE = ("random histories (create with defaults, assign, change values in place, pack, unpack, failing operations, size, "
        "repr) over several objects of classes that share nested classes and fields; after every step every object is "
        "compared with its shadow; buffers handed in and out are overwritten; derived-value functions and selectors "
        "re-enter the library with other objects; groups of threads work on their own objects and switch at chosen lines")
CASES = {'quick': 560, 'thorough': 40000}
REQUIRE = {'steps': 6000, 'shadow_comparisons': 17000, 'packs_compared': 1000, 'unpacks_compared': 800, 'reentered': 110,
           'outputs_scribbled': 1000, 'inputs_scribbled': 800, 'defaults_used': 300, 'elements_changed': 20, 'json_changed': 10, 'in_place_changes': 450,
           'thread_operations': 150, 'thread_switches': 500, 'distinct_interleavings': 20, 'lines_in_threads': 2000000, 'failed_packs': 60, 'failed_unpacks': 100,
           'mutable_constants': 21}


def nontrivial(case):
    return len(case['ops']) >= 3


def generate(rng, tier):
    g = bufgen.Gen(rng, big=0.004, mirror=0, whole=0.15, derived=0.8, dynamic=0.6, max_bytes=8, depth=1, text=0.4, lists=0.5, selector=0.4,
                   nested=0.5, bits=rng.choice((0.1, 0.4)))
    first = g.spec()
    specs = [first]
    if rng.random() < 0.5:
        specs.append(g.spec())
    if rng.random() < 0.6:
        g.count += 1
        specs.append({'name': 'Buf%d' % g.count, 'base': None, 'fields': [
            {'kind': 'int', 'signed': False, 'endian': 'big', 'api': 0, 'width': 8, 'name': 'head', 'w': ['at', 0]},
            {'kind': 'buf', 'spec': first, 'name': 'inner', 'w': ['sl', 1, None]}]})
    for spec in specs:
        for f in bufmodel.all_fields(spec):
            if f.get('sbp') is None and not f.get('sel') and rng.random() < 0.4:
                f['default'] = bufgen.value(rng, spec, f, {})
    if rng.random() < 0.3:
        # A constant that is mutable.
        value = [rng.randint(0, 255) for _ in range(3)]
        specs[-1]['fields'].append({'kind': 'list', 'elem': ['int', 1, False, 'big'], 'name': 'constant_list',
                                    'w': ['sl', 300, 303], 'sbp': ['const', value]})
    objs = [rng.randrange(len(specs)) for _ in range(rng.randint(2, 4))]
    if len(objs) >= 2:
        objs[1] = objs[0]
    ops = [['new', i, subset(rng, specs[s])] for i, s in enumerate(objs)]
    for _ in range(rng.randint(8, 20)):
        i = rng.randrange(len(objs))
        spec = specs[objs[i]]
        r = rng.random()
        if r < 0.06:
            ops.append(['new', i, subset(rng, spec)])
        elif r < 0.2:
            ops.append(['assign', i, bufgen.values(rng, spec)])
        elif r < 0.28:
            values = bufgen.values(rng, spec)
            if values:
                name = rng.choice(sorted(values))
                ops.append(['assign', i, {name: values[name]}])
        elif r < 0.42:
            ops.append(['change', i, rng.randint(0, 1 << 20)])
        elif r < 0.68:
            ops.append(['pack', i, rng.randrange(len(objs)), rng.randint(0, 255)])
        elif r < 0.88:
            data, _, err = bufcheck.model_encode(spec, bufgen.values(rng, spec))
            if data is not None:
                if rng.random() < 0.35:
                    data = bufcheck.mutate(rng, data)
                ops.append(['unpack', i, data, rng.randrange(len(objs)), rng.randint(0, 255)])
        elif r < 0.92:
            ops.append(['size', i])
        elif r < 0.95:
            ops.append(['repr', i])
        else:
            values = bufgen.values(rng, spec)
            names = [f['name'] for f in bufmodel.all_fields(spec) if f['kind'] == 'int' and f['name'] in values]
            if names:
                values[rng.choice(names)] = 1 << 77
                ops.append(['assign', i, values])
                ops.append(['pack', i, rng.randrange(len(objs)), 1])
    case = {'specs': specs, 'objs': objs, 'ops': ops}
    if rng.random() < 0.05:
        work = []
        for i, s in enumerate(objs):
            items = []
            for _ in range(2):
                values = bufgen.values(rng, specs[s])
                data, _, err = bufcheck.model_encode(specs[s], values)
                if data is not None:
                    items.append([values, data])
            work.append(items)
        case['threads'] = work
    return case


def subset(rng, spec):
    values = bufgen.values(rng, spec)
    keep = rng.choice((1.1, 1.1, rng.random()))
    return dict((k, v) for k, v in values.items() if rng.random() < keep)


class State(object):
    def __init__(self, case, obs):
        self.obs = obs
        self.case = case
        self.trace = HookTrace()
        self.builder = bufmodel.Builder(self.trace)
        for s in case['specs']:
            self.builder.build(s)
            bufcheck.features(s, obs)
        self.real = [None] * len(case['objs'])
        self.shadow = [None] * len(case['objs'])
        self.late = []

    def spec(self, i):
        return self.case['specs'][self.case['objs'][i]]

    def plain(self, i):
        return bufmodel.plain(self.builder, self.spec(i), self.real[i])

    def resync(self, i):
        self.shadow[i] = copy.deepcopy(self.plain(i))

    def verify(self, step, op):
        for i in range(len(self.real)):
            if self.real[i] is None:
                continue
            now = self.plain(i)
            self.obs.hit('shadow_comparisons')
            if not same(now, self.shadow[i]):
                raise Violation('isolation' if i != op[1] else 'own-state', "after step %d %r, object %d: %s" % (
                    step, op[:2], i, bufcheck.diff(now, self.shadow[i])))


class HookTrace(bufmodel.Trace):
    hook = None

    def call(self, key):
        hook, self.hook = self.hook, None
        if hook:
            hook()
        self.hook = None


def model_values(spec, shadow):
    """What the reference packs: fields that were never set are None."""
    return copy.deepcopy(shadow)


def check(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    st = State(case, obs)
    for step, op in enumerate(case['ops']):
        obs.hit('steps')
        kind, i = op[0], op[1]
        spec = st.spec(i)
        if kind == 'new':
            shadow = {}
            for f in bufmodel.all_fields(spec):
                shadow[f['name']] = copy.deepcopy(f.get('default'))
                if f['kind'] == 'bytes' and shadow[f['name']] is not None:
                    shadow[f['name']] = bytes(shadow[f['name']])
                if 'default' in f and f['name'] not in op[2]:
                    obs.hit('defaults_used')
            shadow.update(copy.deepcopy(op[2]))
            st.real[i] = bufmodel.make(st.builder, spec, copy.deepcopy(op[2]), 'kwargs')
            complete(st, spec, shadow)
            st.shadow[i] = shadow
        elif kind == 'assign':
            for f in bufmodel.all_fields(spec):
                if f['name'] in op[2] and f.get('sbp') is None:
                    setattr(st.real[i], f['name'], bufmodel.make_value(st.builder, f, copy.deepcopy(op[2][f['name']])))
                    st.shadow[i][f['name']] = copy.deepcopy(op[2][f['name']])
            complete(st, spec, st.shadow[i])
        elif kind == 'change':
            change(st, i, op[2], obs)
        elif kind == 'repr':
            if len(repr(st.real[i])) < 2:
                obs.fail('repr', "empty repr")
        elif kind == 'size':
            try:
                st.real[i].calc_byte_size()
            except Exception:
                obs.hit('failed_sizes')
            adopt_derived(st, i)
        elif kind == 'pack':
            pack(st, i, op, obs, InstructBufferError)
        elif kind == 'unpack':
            unpack(st, i, op, obs, InstructBufferError)
        st.trace.hook = None
        if st.late:
            raise st.late[0]
        st.verify(step, op)
    if 'threads' in case:
        run_threads(st, case['threads'], obs)
        for i in range(len(st.real)):
            if st.real[i] is not None:
                obs.expect(same(st.plain(i), st.shadow[i]), 'isolation', "threads working on other objects changed %d", i)


def complete(st, spec, shadow):
    """Nested values in a shadow list every field (unset ones are None)."""
    for f in bufmodel.all_fields(spec):
        v = shadow.get(f['name'])
        if f['kind'] == 'buf' and v is not None:
            shadow[f['name']] = completed(f['spec'], v)
        elif f['kind'] == 'list' and f['elem'][0] == 'buf' and v is not None:
            shadow[f['name']] = [completed(f['elem'][1], x) for x in v]


def completed(spec, v):
    inner = v
    if '$spec' in v:
        spec, inner = v['$spec'], v['$values']
    for f in bufmodel.all_fields(spec):
        inner.setdefault(f['name'], copy.deepcopy(f.get('default')))
    complete(None, spec, inner)
    return v


def adopt_derived(st, i):
    """Derived values may or may not have been stored: take them as they are. All others must be as before."""
    now = copy.deepcopy(st.plain(i))
    take(st.spec(i), now, st.shadow[i])


def take(spec, now, shadow):
    for f in bufmodel.all_fields(spec):
        n, s = now[f['name']], shadow[f['name']]
        if f.get('sbp') is not None:
            shadow[f['name']] = n
        elif f['kind'] == 'buf' and isinstance(n, dict) and isinstance(s, dict):
            take_nested(f['spec'], n, s)
        elif f['kind'] == 'list' and f['elem'][0] == 'buf' and isinstance(n, list) and isinstance(s, list):
            for a, b in zip(n, s):
                if isinstance(a, dict) and isinstance(b, dict):
                    take_nested(f['elem'][1], a, b)


def take_nested(spec, n, s):
    if '$spec' in n and '$spec' in s:
        if n['$spec'] == s['$spec']:
            take(n['$spec'], n['$values'], s['$values'])
    elif '$spec' not in n and '$spec' not in s:
        take(spec, n, s)


def change(st, i, k, obs):
    """Changes a value in place: in the real object and in its shadow alike."""
    spec, real, shadow = st.spec(i), st.real[i], st.shadow[i]
    options = []
    for f in bufmodel.all_fields(spec):
        v = shadow[f['name']]
        if v is None:
            continue
        if f['kind'] in ('list', 'bytes') and len(v) and (f['kind'] == 'bytes' or f['elem'][0] == 'int'):
            options.append(f)
        elif f['kind'] == 'json' and isinstance(v, (list, dict)):
            options.append(f)
        elif f['kind'] == 'buf' and '$spec' not in v and any(
                x['kind'] == 'int' and x.get('sbp') is None for x in bufmodel.all_fields(f['spec'])):
            options.append(f)
        elif f['kind'] == 'list' and f['elem'][0] == 'buf' and not f.get('sel') and any(
                x is not None and inner_field(f['elem'][1]) for x in v):
            options.append(f)
    if not options:
        return
    many = [f for f in options if f['kind'] == 'list' and f['elem'][0] == 'buf' and len(shadow[f['name']]) > 1]
    if many and k % 3:
        options = many
    f = options[k % len(options)]
    rv = getattr(real, f['name'])
    if f['kind'] == 'bytes':
        if not isinstance(rv, bytearray):
            return
        rv[k % len(rv)] ^= 1
        v = bytearray(shadow[f['name']])
        v[k % len(v)] ^= 1
        shadow[f['name']] = bytes(v)
    elif f['kind'] == 'list' and f['elem'][0] == 'buf':
        x = inner_field(f['elem'][1])
        n = [n for n, y in enumerate(rv) if y is not None]
        n = n[k % len(n)]
        if '$spec' in shadow[f['name']][n]:
            return
        setattr(rv[n], x['name'], k & 1)
        shadow[f['name']][n][x['name']] = k & 1
        obs.hit('elements_changed')
    elif f['kind'] == 'list':
        rv[k % len(rv)] = k % 100
        shadow[f['name']][k % len(rv)] = k % 100
    elif f['kind'] == 'json':
        for v in (rv, shadow[f['name']]):
            if digits(v) is not None:
                digits(v)[0] = k % 10
            elif isinstance(v, list):
                v.append(k % 10)
            else:
                v['k'] = k % 10
        obs.hit('json_changed')
    else:
        x = inner_field(f['spec'])
        if x is None:
            return
        setattr(rv, x['name'], k & 1)
        shadow[f['name']][x['name']] = k & 1
    obs.hit('in_place_changes')
    if f.get('sbp') is not None and f['sbp'][0] == 'const':
        obs.hit('mutable_constants')


def inner_field(spec):
    for x in bufmodel.all_fields(spec):
        if x['kind'] == 'int' and x.get('sbp') is None:
            return None if x.get('flag') or x.get('tag') or 'counts' in x or 'fixed_value' in x else x


def digits(v):
    """The innermost list in a JSON value, if it begins with a digit (changing that doesn't change the size of its text)."""
    if isinstance(v, dict):
        for k in sorted(v):
            found = digits(v[k])
            if found is not None:
                return found
        return None
    if isinstance(v, list) and v and type(v[0]) is int and 0 <= v[0] <= 9:
        return v
    return None


def foreign_pack(st, j, obs):
    """Called from within the library: packs another object."""
    def hook():
        obs.hit('reentered')
        want, stored, err = bufcheck.model_encode(st.spec(j), model_values(st.spec(j), st.shadow[j]))
        try:
            got = bytes(st.real[j].pack())
        except Exception as e:
            got = None
            if err is None:
                st.late.append(Violation('reentrant', "packing object %d inside another operation failed: %s" % (
                    j, str(e)[:500])))
        if isinstance(err, bufmodel.Unspecified):
            adopt_derived(st, j)
        elif err is not None:
            if got is not None:
                st.late.append(Violation('reentrant', "object %d was packed although %s" % (j, err)))
            adopt_derived(st, j)
        else:
            st.shadow[j].update(stored)
            if got is not None and got != want:
                st.late.append(Violation('reentrant', "object %d packed inside another operation: got %r, want %r" % (
                    j, got, want)))
    return hook


def pack(st, i, op, obs, Error):
    spec = st.spec(i)
    want, stored, err = bufcheck.model_encode(spec, model_values(spec, st.shadow[i]))
    j = op[2]
    if j != i and st.real[j] is not None:
        st.trace.hook = foreign_pack(st, j, obs)
    try:
        got = st.real[i].pack()
    except Error as e:
        st.trace.hook = None
        obs.hit('failed_packs')
        if err is None:
            obs.fail('pack', "pack() failed: %s" % str(e)[:500])
        adopt_derived(st, i)
        return
    except Exception:
        if not isinstance(err, bufmodel.Unspecified) and 'declared' not in str(err):
            raise
        st.trace.hook = None
        adopt_derived(st, i)
        return
    st.trace.hook = None
    if isinstance(err, bufmodel.Unspecified):
        adopt_derived(st, i)
        return
    obs.expect(err is None, 'pack', "packed %r although %s", got, err)
    obs.hit('packs_compared')
    obs.equal(bytes(got), want, 'pack', "object %d", i)
    st.shadow[i].update(stored)
    # The result belongs to the caller.
    for k in range(len(got)):
        got[k] = op[3]
    got += b'junk'
    obs.hit('outputs_scribbled')
    obs.expect(same(st.plain(i), st.shadow[i]), 'output-alias', "changing the packed bytes changed the object: %s",
               bufcheck.diff(st.plain(i), st.shadow[i]))
    obs.equal(bytes(st.real[i].pack()), want, 'repack', "packing object %d again", i)


def unpack(st, i, op, obs, Error):
    spec, data = st.spec(i), op[2]
    want, used, err = bufcheck.model_decode(spec, data)
    if isinstance(err, bufmodel.Unspecified):
        return
    j = op[3]
    if j != i and st.real[j] is not None:
        st.trace.hook = foreign_pack(st, j, obs)
    raw = bytearray(data)
    try:
        got_used = st.real[i].unpack(raw)
    except Error as e:
        st.trace.hook = None
        obs.hit('failed_unpacks')
        obs.expect(err is not None, 'unpack', "unpacking %r failed: %s", data, str(e)[:500])
        obs.expect(bytes(raw) == data, 'input-changed', "a failing unpack() changed its input")
        st.resync(i)
        return
    st.trace.hook = None
    obs.expect(err is None, 'unpack', "%r was accepted although %s", data, err)
    obs.hit('unpacks_compared')
    obs.expect(bytes(raw) == data, 'input-changed', "unpack() changed its input to %r", raw)
    obs.expect(same(st.plain(i), want), 'unpack', "%r: %s", data, bufcheck.diff(st.plain(i), want))
    obs.equal(float(got_used), float(used), 'consumed', "unpacking %r", data)
    # The input still belongs to the caller.
    for k in range(len(raw)):
        raw[k] = op[4]
    obs.hit('inputs_scribbled')
    obs.expect(same(st.plain(i), want), 'input-alias', "overwriting the input changed the object: %s",
               bufcheck.diff(st.plain(i), want))
    st.shadow[i] = copy.deepcopy(want)


def run_threads(st, work, obs):
    """Every thread has its own objects; the classes are shared. Threads switch at chosen lines of the library."""
    rng = random.Random(repr(sorted(len(d) for items in work for v, d in items)) + repr(st.case['ops'])[:200])
    bad, done = [], [0]

    def body(k):
        spec, items = st.spec(k), work[k]

        def go():
            for values, data in items:
                obj = bufmodel.make(st.builder, spec, copy.deepcopy(values), 'kwargs')
                got = bytes(obj.pack())
                if got != data:
                    bad.append("pack in thread %d: got %r, want %r" % (k, got, data))
                done[0] += 1
                if k in lossy:
                    continue
                back = st.builder.build(spec)()
                back.unpack(data)
                again = bytes(back.pack())
                if again != data:
                    bad.append("unpack and pack in thread %d: got %r, want %r" % (k, again, data))
        return go

    # Some classes don't give back the same bytes, sequentially either.
    lossy = set()
    for k, items in enumerate(work):
        for values, data in items:
            want, _, err = bufcheck.model_decode(st.spec(k), data)
            if err is not None or bufcheck.model_encode(st.spec(k), want)[0] != data:
                lossy.add(k)
    events = None
    for _ in range(3):
        inter = sched.Interleaver([body(k) for k in range(len(work))], sched.points(rng, events) if events else (), rng)
        for k, (kind, value) in enumerate(inter.run()):
            if kind == 'error':
                bad.append("thread %d: %s: %s" % (k, type(value).__name__, str(value)[:500]))
        events = inter.events
        obs.hit('thread_switches', inter.switches)
        obs.hit('lines_in_threads', inter.events)
        if inter.trail:
            before = len(SEEN)
            SEEN.add(hash((repr(st.case['ops'])[:200], tuple(inter.trail))))
            obs.hit('distinct_interleavings', len(SEEN) - before)
        obs.expect(not bad, 'concurrent', "%s", "; ".join(bad[:3]))
    obs.hit('thread_operations', done[0])
    obs.hit('thread_groups')


SEEN = set()
