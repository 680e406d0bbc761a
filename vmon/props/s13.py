"""Operations on structs are independent of one another."""
import copy as copying
import io
import random

from vmon import sched, structgen
from vmon import structmodel as M
from vmon.core import same
from vmon.props import s11

ID = 'S13'
RULE = ("several actors with their own objects of the same or nested classes, sharing classes, defaults, contexts and input; their "
        "reads, writes, changes, sizes, prints, copies and failures are run one after the other in random orders, from within the "
        "streams, predicates and selectors of each other's operations, and in threads that switch at chosen lines of the library; every "
        "result is compared with the reference for that actor alone")
CASES = {'quick': 700, 'thorough': 40000}
REQUIRE = {'operations': 15000, 'reads': 5000, 'writes': 4000, 'prints': 1300, 'sizes': 800, 'failed_reads': 700, 'failed_writes': 600,
           'nested_operations': 700, 'nested_in_callbacks': 600, 'threads': 2500, 'switches': 20000, 'distinct_interleavings': 500,
           'lines_in_threads': 1200000, 'changes': 1000, 'final_objects': 2500, 'alike': 1400}
ASSUMPTIONS = ["no two threads use the same object at the same time"]

CONTEXTS = [{}, {'int_repr_format': '0x%x'}, {'mode': 1}, {'mode': 2, 'other': 'x'}]


def generate(rng, tier):
    for _ in range(100):
        g = structgen.Gen(rng, size=rng.choice((2, 4)), depth=rng.choice((1, 2)), weights={'opt': 2, 'sel': 2, 'fsel': 2, 'lazy': 1.5,
                                                                                          'bits': 1.5, 'map': 1.5})
        first = g.spec()
        if not s11.reaches_lazy(first):
            break
    specs = [first]
    if rng.random() < 0.7:
        specs.append({'name': 'Outer', 'ctx': {'mode': rng.randint(0, 2)}, 'fields': [
            {'k': 'f', 'name': 'own', 'm': ['num', 'UBInt16']},
            {'k': 'f', 'name': 'parts', 'm': [rng.choice(['varr', 'sarr']) if M.bounds(first)[0] else 'varr', ['num', 'UBInt16'], ['struct', first]]},
            {'k': 'f', 'name': 'one', 'm': ['struct', first]}]})
    context = rng.choice(CONTEXTS)
    ctx = M.Ctx(None, context)
    actors = []
    for _ in range(rng.randint(2, 3)):
        which = rng.randrange(len(specs))
        spec = specs[which]
        ops = [['new', subset(rng, g.values(spec, ctx))] if rng.random() < 0.5 else ['read', M.encode(spec, g.values(spec, ctx), ctx)]]
        for _ in range(rng.randint(2, 7)):
            r = rng.random()
            values = g.values(spec, ctx)
            if r < 0.3:
                data = M.encode(spec, values, ctx)
                if rng.random() < 0.3:
                    data = structgen.mutate(rng, data)
                ops.append(['read', data])
            elif r < 0.4:
                ops.append(['new', subset(rng, values) if rng.random() < 0.5 else values])
            elif r < 0.7:
                ops.append(['write'])
            elif r < 0.78:
                ops.append(['size'])
            elif r < 0.88:
                ops.append(['print'])
            elif r < 0.92:
                ops.append(['copy'])
            else:
                names = [f for f in M.named(spec) if 'value' not in f]
                if names:
                    f = rng.choice(names)
                    ops.append(['set', f['name'], values[f['name']] if rng.random() < 0.8 else None])
        actors.append([which, ops])
    mode = rng.choice(('order', 'order', 'nested', 'nested', 'nested', 'threads', 'threads', 'together', 'together'))
    if mode == 'together':
        # Few fields, and threads that do the same things with them again and again.
        g = structgen.Gen(rng, size=rng.choice((1, 2, 3)), depth=rng.choice((0, 0, 1)), weights={'bits': rng.choice((1, 8)), 'lazy': 0.3})
        specs = [g.spec()]
        actors = []
        for _ in range(rng.randint(2, 3)):
            ops = [['new', g.values(specs[0], ctx)]]
            for _ in range(4):
                ops.append(rng.choice((['write'], ['write'], ['print'], ['size'], ['read', M.encode(specs[0], g.values(specs[0], ctx), ctx)])))
            actors.append([0, ops])
    # objects of one class that differ only in what their fields that are decoded on demand have to look up
    alike = [[rng.randint(0, 3), rng.choice((b'aa', b'aa', b'b\0')), rng.choice((None, 1, 2)), rng.randint(0, 2)] for _ in range(rng.randint(2, 6))]
    return {'specs': specs, 'actors': actors, 'context': context, 'mode': mode, 'alike': alike, 'seed': rng.getrandbits(30), 'style': rng.getrandbits(20)}


def subset(rng, values):
    return dict((k, v) for k, v in values.items() if rng.random() < 0.7)


def nontrivial(case):
    return sum(len(a[1]) for a in case['actors']) > 3


class Hooked(io.BytesIO):
    """A stream that lets others work in the middle of an operation."""
    hook = staticmethod(lambda: None)

    def read(self, *args):
        self.hook()
        out = io.BytesIO.read(self, *args)
        self.hook()
        return out

    def write(self, data):
        self.hook()
        n = io.BytesIO.write(self, data)
        self.hook()
        return n


class Actor(object):
    """One user of the classes, with one object, and a reference that follows it."""

    def __init__(self, spec, builder, ops, context, ctx, hook):
        self.spec, self.builder, self.ops = spec, builder, list(ops)
        self.cls = builder.classes[spec['name']][1]
        self.context, self.ctx, self.hook = context, ctx, hook
        self.obj = self.values = None
        self.bad = []
        self.done = []
        self.counts = {}

    def hit(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    def expect(self, good, text, *args):
        if not good:
            self.bad.append((text % args if args else text) + " -- after %r of %r" % (self.done, self.spec))

    def step(self):
        """-> whether there was something to do"""
        if not self.ops:
            return False
        op = self.ops.pop(0)
        self.done.append(op)
        self.hit('operations')
        getattr(self, 'do_' + op[0])(*op[1:])
        return True

    def stream(self, data=b''):
        s = Hooked(data)
        s.hook = self.hook
        return s

    def do_new(self, given):
        self.values = s11.full(self.spec, given)
        self.obj = self.cls(**self.builder.kwargs(self.spec, given))
        self.compare('a new object')

    def do_read(self, data):
        r = M.Reader(data)
        try:
            want = M.decode(self.spec, r, self.ctx)
        except M.ModelError:
            want = None
        lazy = any(f['k'] == 'lazy' for s in s11.specs_in(self.spec) for f in s['fields'])
        s = self.stream(data)
        self.hit('reads')
        try:
            got = self.cls.create_from_stream(s, self.context)
        except Exception as e:
            self.expect(want is None, "reading %r fails with %r", data, e)
            self.hit('failed_reads')
            return
        if want is None:
            self.hit('failed_reads')
            if lazy:
                return
            self.expect(False, "%r is read as %r", data, got)
            return
        self.expect(s.tell() == r.pos, "reading %r took %d bytes instead of %d", data, s.tell(), r.pos)
        s11.hide(self.spec, want)
        self.obj, self.values = got, want
        if len(data) % 2:
            self.compare("reading %r" % (data,))

    def do_write(self):
        try:
            want = M.encode(self.spec, self.values, self.ctx)
        except Exception:
            want = None
        s = self.stream()
        self.hit('writes')
        try:
            self.cls.write_to_stream(self.obj, s, self.context)
        except Exception as e:
            self.expect(want is None, "writing fails with %r", e)
            self.hit('failed_writes')
            if want is None:
                self.obj, self.values = self.cls(), s11.full(self.spec, {})     # what lazy groups are decoded by now is unknown
            return
        self.expect(want is None or want == s.getvalue(), "written as %r instead of %r", s.getvalue(), want)
        if want is not None:
            s11.show(self.values)

    def do_size(self):
        try:
            want = len(M.encode(self.spec, self.values, self.ctx))
        except Exception:
            return
        self.hit('sizes')
        try:
            got = self.cls.sizeof(self.obj)
        except Exception as e:
            got = e
        self.expect(got == want, "size %r instead of %r", got, want)

    def do_print(self):
        want = M.text(self.spec, self.values, self.ctx)
        self.hit('prints')
        got = self.cls.to_repr(self.obj, self.context)
        self.expect(got == want, "printed as %r instead of %r", got, want)

    def do_copy(self):
        self.obj, self.values = copying.deepcopy(self.obj), copying.deepcopy(self.values)

    def do_set(self, name, value):
        f = [f for f in M.named(self.spec) if f['name'] == name][0]
        self.hit('changes')
        s11.use(self.spec, self.values, name)
        real = self.builder.value_of(f['m'], value) if 'm' in f else value
        setattr(self.obj, name, real)
        self.values[name] = s11.full_value(f['m'], copying.deepcopy(value)) if 'm' in f and value is not None else value

    def compare(self, what):
        s11.show(self.values)
        got, want = self.builder.plain(self.spec, self.obj), s11.bare(self.values)
        for f in M.named(self.spec):
            n = f['name']
            self.expect(same(got[n], want[n]), "%s is %r instead of %r, %s", n, got[n], want[n], what)


SEEN = set()


def first_time(what):
    before = len(SEEN)
    SEEN.add(hash(what))
    return len(SEEN) - before


def check(case, obs):
    from infi.instruct.base import WritableContext
    rng = random.Random(case['seed'])
    given = copying.deepcopy(case['context'])
    context = WritableContext(given)
    ctx = M.Ctx(None, case['context'])

    def actors(hook=lambda: None):
        b = Builder(case['style'])
        b.hook = hook
        for spec in case['specs']:
            b.build(spec)
        return [Actor(case['specs'][w], b, ops, context, ctx, hook) for w, ops in case['actors']]

    def finish(all_of_them, how):
        for k, a in enumerate(all_of_them):
            if a.obj is not None:
                a.compare('at the end')
                obs.hit('final_objects')
            for name, n in a.counts.items():
                obs.hit(name, n)
            obs.expect(not a.bad, how, "actor %d: %s", k, '; '.join(a.bad)[:3000])
        obs.equal(given, case['context'], 'context', "the context afterwards")
        obs.equal(context.get_dict(), case['context'], 'context', "the context afterwards")

    look_alikes(case, random.Random(case['seed']), obs)
    alone = actors()
    for a in alone:
        while a.step():
            pass
    finish(alone, 'sequence')

    if case['mode'] == 'order':
        group = actors()
        while True:
            left = [a for a in group if a.ops]
            if not left:
                break
            rng.choice(left).step()
        finish(group, 'order')
    elif case['mode'] == 'nested':
        group, active = [], []

        def hook():
            free = [a for a in group if a.ops and a not in active]
            if free and rng.random() < 0.15:
                obs.hit('nested_operations')
                run(rng.choice(free))

        def run(a):
            active.append(a)
            try:
                a.step()
            finally:
                active.pop()

        group.extend(actors(hook))
        group[0].builder.called = lambda: obs.hit('nested_in_callbacks')
        while True:
            left = [a for a in group if a.ops]
            if not left:
                break
            run(rng.choice(left))
        finish(group, 'nested')
    else:
        def body(a):
            def go():
                while a.step():
                    pass
            return go
        events = None
        for _ in range(5 if case['mode'] == 'threads' else 12):
            group = actors()
            inter = sched.Interleaver([body(a) for a in group], sched.points(rng, events) if events else (), rng)
            if events and case['mode'] == 'together' and rng.random() < 0.5:
                inter.points = frozenset(rng.sample(range(1, events + 1), events // rng.choice((3, 8, 20))))
            for kind, value in inter.run():
                if kind == 'error':
                    raise value
            events = inter.events
            obs.hit('lines_in_threads', events)
            obs.hit('switches', inter.switches)
            obs.hit('threads', len(group))
            if inter.switches and inter.trail:
                obs.hit('distinct_interleavings', first_time((case['seed'], tuple(inter.trail))))
            if inter.free:
                obs.hit('stuck')
            finish(group, 'threads')
            if events > 100000:
                break


def look_alikes(case, rng, obs):
    import infi.instruct as I
    from infi.instruct.base import CallableReader, WritableContext
    from infi.instruct.struct.pointer import ReadPointer
    from infi.instruct.array import FixedSizeArrayMarshal
    inner = type(I.Struct)('Inner', (I.Struct,), {'_context_': {'mode': 9}, '_fields_': [
        I.UBInt8('b'), I.Field('mode', CallableReader(lambda stream, context: context.get('mode', None)))]})
    cls = type(I.Struct)('Alike', (I.Struct,), {'_fields_': [
        I.UBInt8('n'), I.Lazy(I.FixedSizeString('s', 2), I.Field('p', ReadPointer('n')),
                              I.Field('mode', CallableReader(lambda stream, context: context.get('mode', None))),
                              I.Field('parts', FixedSizeArrayMarshal(2, inner)))]})
    group = []
    for n, text, mode, how in case['alike']:
        data = bytes(bytearray([n])) + text + b'xy'
        context = () if mode is None else (WritableContext({'mode': mode}),)
        obj = cls.create_from_string(data, *context) if how else cls.create_from_stream(io.BytesIO(data), *context)
        if how == 2:
            obj = copying.deepcopy(obj)
        # a mode that is handed in takes the place of the one that a class has
        group.append((obj, n, text.rstrip(b'\0'), mode, 9 if mode is None else mode))
        obs.hit('alike')
    rng.shuffle(group)
    for obj, n, text, mode, inner_mode in group:
        got = {'n': obj.n, 'p': obj.p, 's': obj.s, 'mode': obj.mode, 'parts': [[x.b, x.mode] for x in obj.parts]}
        obs.equal(got, {'n': n, 'p': n, 's': text, 'mode': mode, 'parts': [[120, inner_mode], [121, inner_mode]]}, 'alike',
                  "an object among %r", case['alike'])


class Builder(M.Builder):
    """Others get to work from within predicates and selecting functions as well."""
    hook = staticmethod(lambda: None)
    called = staticmethod(lambda: None)

    def predicate(self, f):
        inner = M.Builder.predicate(self, f)

        def check(obj, stream, context):
            self.called()
            self.hook()
            return inner(obj, stream, context)
        return check

    def selector(self, m):
        inner = M.Builder.selector(self, m)

        def select(obj, stream, context):
            self.called()
            self.hook()
            out = inner(obj, stream, context)
            self.hook()
            return out
        return select
