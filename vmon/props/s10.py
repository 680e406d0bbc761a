"""S10: conditions, pointers, selecting functions and user marshals see the object being processed and its context.

A case is a tree of struct classes with user code in it (predicates of optional fields, pointers, selecting functions,
callable readers, marshals written by the user), an object of it and a context. The model walks the declaration, encodes
the object and predicts each call of user code: which one, on which object, which of its fields are set at that moment,
how many bytes were read, and what the context holds. The monitors record the real calls.
"""
import copy

ID = 'S10'
RULE = "a case counts if user code is called on at least two objects, or a condition or pointer decides what is read"
CASES = {'quick': 6000, 'thorough': 120000}
REQUIRE = {'read': 4000, 'calls_compared': 20000, 'optional_present': 3000, 'optional_absent': 2800,
           'pointer_counts': 3000, 'write_calls': 5000, 'repr_calls': 2000, 'context_puts_seen': 300, 'context_puts_by_opt': 600, 'context_puts_by_sel': 60, 'context_puts_by_call': 150,
           'caller_contexts_checked': 6000, 'recursion_2': 250, 'recursion_ends': 900, 'optional_empty': 330, 'optional_zero': 200, 'optional_over_default': 200, 'reread_same_class': 600, 'keys_by_probe': 450, 'sizes_by_probe': 1500, 'context_copies_changed': 10000, 'large_contexts': 200}
ASSUMPTIONS = ["user code is deterministic and reads only what it is handed (object, stream, context)"]

KEYS = ('mode', 'ver', 'deep')
INTS = {'UBInt8': (1, 'big'), 'UBInt16': (2, 'big'), 'ULInt16': (2, 'little'), 'UBInt32': (4, 'big')}


# -- cases --------------------------------------------------------------------------------------------------------

def number_or_none(rng):
    return rng.randint(0, 3) if rng.random() < 0.85 else None


class _Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def cls(self, depth):
        rng = self.rng
        self.n += 1
        spec = {'name': 'T%d' % self.n, 'fields': [], 'inherit': rng.random() < 0.2}
        if rng.random() < 0.4:
            spec['ctx'] = dict((k, number_or_none(rng)) for k in KEYS if rng.random() < 0.5)
            if spec['inherit'] and rng.random() < 0.5:
                spec['basectx'] = dict((k, number_or_none(rng)) for k in KEYS if rng.random() < 0.7)
        elif spec['inherit'] and rng.random() < 0.6:
            spec['basectx'] = dict((k, number_or_none(rng)) for k in KEYS)
        names = iter('f%d' % i for i in range(100))
        ints = []                                     # plain numbers that later fields can refer to
        for _ in range(rng.randint(1, 6)):
            kind = rng.choice(['int', 'int', 'bits', 'opt', 'opt', 'opt', 'probe', 'ptr', 'parr', 'pstr', 'psum', 'call',
                               'nest', 'nest', 'arr', 'sel', 'again', 'lazyptr', 'map', 'const', 'sized', 'sized', 'key'])
            if kind in ('nest', 'arr', 'sel', 'again', 'key') and depth == 0:
                kind = 'opt'
            if kind in ('ptr', 'parr', 'pstr', 'psum', 'lazyptr') and not ints:
                kind = 'int'
            f = {'kind': kind, 'name': next(names)}
            if kind == 'int':
                f['type'] = rng.choice(sorted(INTS))
                f['small'] = rng.random() < 0.8
                ints.append(f['name'])
            elif kind == 'bits':
                f['name2'] = next(names)
                f['w'] = rng.randint(1, 7)
                f['where'] = rng.random() < 0.3       # in a lazy group
                ints += [f['name'], f['name2']]
            elif kind == 'opt':
                f['pred'] = self.pred(ints)
                f['of'] = self.element(depth, ints)
                f['put'] = rng.random() < 0.2
                if f['of']['kind'] in ('int', 'str') and rng.random() < 0.25:
                    # always there, and something else until then
                    f['pred'] = ['fixed', True]
                    f['default'] = rng.randint(0, 200) if f['of']['kind'] == 'int' else b'default'
            elif kind == 'probe':
                f['put'] = rng.random() < 0.3
            elif kind in ('ptr', 'lazyptr'):
                f['to'] = rng.choice(ints)
                f['prop'] = rng.random() < 0.2
            elif kind in ('parr', 'pstr', 'psum'):
                f['to'] = rng.choice(ints)
                f['of'] = self.element(depth, []) if kind == 'parr' else rng.choice(({'kind': 'int', 'type': 'UBInt16'}, {
                    'kind': 'probe', 'put': False}))
            elif kind == 'call':
                f['put'] = rng.random() < 0.3
            elif kind == 'nest':
                f['of'] = self.cls(depth - 1)
            elif kind == 'arr':
                f['of'] = self.element(depth, [])
                f['fixed'] = rng.randint(0, 3) if rng.random() < 0.4 else None
            elif kind == 'const':
                f['value'] = rng.randint(0, 255)
            elif kind == 'sized':
                # counted by a marshal of the user's
                f['what'] = rng.choice(('str', 'buf', 'arr', 'sum', 'sum'))
                f['of'] = self.element(depth, [])
                if f['of']['kind'] == 'cls':
                    f['of']['of']['fields'].insert(0, {'kind': 'int', 'name': 'first', 'type': 'UBInt8', 'small': True})
            elif kind == 'key':
                f['of'] = [self.cls(depth - 1), self.cls(depth - 1)]
                for i, s in enumerate(f['of']):
                    s['fields'].insert(0, {'kind': 'int', 'name': 'tag', 'type': 'UBInt8', 'force': i + 65})
            elif kind == 'again':
                # a class that holds itself, as long as a number says so
                more = next(names)
                spec['fields'].append({'kind': 'int', 'name': more, 'type': 'UBInt8', 'small': True, 'again': True})
                f.update(kind='sel', own=True, on=['field', more, 1, 1], of=[self.cls(0)], put=rng.random() < 0.2)
            elif kind == 'sel':
                f['on'] = self.pred(ints)
                f['put'] = rng.random() < 0.2
                f['of'] = [self.cls(depth - 1), self.cls(depth - 1)]
            spec['fields'].append(f)
        return spec

    def pred(self, ints):
        rng = self.rng
        if ints and rng.random() < 0.6:
            return ['field', rng.choice(ints), rng.choice((1, 2, 3)), rng.randint(0, 1)]
        if rng.random() < 0.8:
            return ['ctx', rng.choice(KEYS), rng.randint(0, 3), rng.randint(0, 3)]
        return ['fixed', rng.random() < 0.5]

    def element(self, depth, ints):
        rng = self.rng
        r = rng.random()
        if depth > 0 and r < 0.4:
            return {'kind': 'cls', 'of': self.cls(depth - 1)}
        if r < 0.6:
            return {'kind': 'probe', 'put': False}
        if r < 0.75:
            return {'kind': 'str'}
        return {'kind': 'int', 'type': rng.choice(sorted(INTS))}


def generate(rng, tier):
    g = _Gen(rng)
    spec = g.cls(rng.choice((0, 1, 1, 2, 2, 3)))
    case = {'spec': spec, 'seed': rng.getrandbits(30),
            'ctx': None if rng.random() < 0.3 else dict((k, number_or_none(rng)) for k in KEYS if rng.random() < 0.5),
            'ctxkind': rng.choice(('ro', 'rw')), 'ctx2': dict((k, rng.randint(0, 3)) for k in KEYS if rng.random() < 0.5),
            'tail': rng.randint(0, 3)}
    if case['ctx'] is not None and rng.random() < 0.05:
        # Entries that nothing in the declaration knows about are there as well, however many.
        case['ctx'].update(('more%d' % i, i) for i in range(rng.choice((10, 20, 70, 300))))
    return case


def nontrivial(case):
    return len(case['spec']['fields']) >= 2


# -- the model: builds an object (plain data), its bytes, and the calls which reading, writing and printing have to make ----

def holds(pred, values, env):
    if pred[0] == 'field':
        return (values[pred[1]] & pred[2] != 0) == bool(pred[3])
    if pred[0] == 'ctx':
        return at_least(env.get(pred[1], pred[2]), pred[3])
    return pred[1]


def at_least(value, limit):
    """Contexts may hold None, which is not the same as holding nothing."""
    return limit % 2 == 0 if value is None else value >= limit


def number(rng, typ, small):
    size, order = INTS[typ]
    v = rng.randint(0, 4) if small else rng.getrandbits(8 * size)
    return v


class Model(object):
    """Walks the declaration once, in reading order, choosing values as it goes."""

    def __init__(self, rng):
        self.rng = rng
        self.out = bytearray()
        self.calls = []           # (what, class name, field name, fields set so far, bytes read so far, context)
        self.stats = {}
        self.level = 0

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def env_of(self, spec, env):
        own = spec.get('ctx')
        if own is None:
            own = spec.get('basectx') if spec['inherit'] else None
        new = dict(own or {})
        new.update(env)
        return new

    def call(self, what, spec, f, values, env):
        self.calls.append((what, spec['name'], f['name'], tuple(sorted(set(k for k, v in values.items() if v is not None) |
                                                                         set(x['name'] for x in spec['fields'] if x['kind'] == 'const' or 'default' in x))),
                           len(self.out), tuple(sorted(env.items()))))

    def obj(self, spec, env):
        env = self.env_of(spec, env)
        values = {}
        for f in spec['fields']:
            kind = f['kind']
            if kind == 'bits':
                v = self.rng.getrandbits(8)
                if self.rng.random() < 0.7:
                    v &= 0x33 & ((3 << f['w']) | 3)
                values[f['name']] = v & ((1 << f['w']) - 1)
                values[f['name2']] = v >> f['w']
                self.out.append(v)
                continue
            values[f['name']] = self.field(spec, f, values, env)
        return {'$c': spec['name'], '$v': values}

    def field(self, spec, f, values, env):
        kind = f['kind']
        if kind == 'int':
            v = number(self.rng, f['type'], f['small']) if 'force' not in f else f['force']
            if f.get('again'):
                v = int(self.level < 4 and self.rng.random() < 0.6)
            self.put_int(f['type'], v)
            return v
        if kind == 'opt':
            self.call('pred', spec, f, values, env)
            met = holds(f['pred'], values, env)
            self.put(f, env)
            if not met:
                self.hit('optional_absent')
                return None
            self.hit('optional_present')
            if 'default' in f:
                self.hit('optional_over_default')
            return self.element(spec, f, f['of'], values, env)
        if kind == 'probe':
            return self.probe(spec, f, values, env, f['put'])
        if kind == 'call':
            self.call('call', spec, f, values, env)
            self.put(f, env)
            return len(values)
        if kind in ('ptr', 'lazyptr'):
            self.hit('pointer_counts')
            return values[f['to']] * (2 if f.get('prop') else 1)
        if kind == 'parr':
            self.hit('pointer_counts')
            n = min(values[f['to']], 6)
            if values[f['to']] > 6:
                raise Overflow()
            return [self.element(spec, f, f['of'], values, env) for _ in range(n)]
        if kind == 'pstr':
            self.hit('pointer_counts')
            if values[f['to']] > 1000:
                raise Overflow()
            v = bytes(bytearray(self.rng.randint(1, 255) for _ in range(values[f['to']])))
            self.out += v
            return v
        if kind == 'psum':
            self.hit('pointer_counts')
            n, size = values[f['to']], 2 if f['of']['kind'] == 'int' else 1
            if n % size or n > 1000:
                raise Overflow()
            return [self.element(spec, f, f['of'], values, env) for _ in range(n // size)]
        if kind == 'map':
            return 'k%d' % self.probe(spec, f, values, env, False)
        if kind == 'const':
            self.call('read', spec, f, values, env)
            self.out.append(f['value'])
            return f['value']
        if kind == 'sized':
            return self.sized(spec, f, values, env)
        if kind == 'key':
            self.hit('keys_by_probe')
            self.call('read', spec, f, values, env)
            return self.obj(self.rng.choice(f['of']), env)
        if kind == 'nest':
            return self.obj(f['of'], env)
        if kind == 'arr':
            n = self.rng.randint(0, 3) if f['fixed'] is None else f['fixed']
            if f['fixed'] is None:
                self.out.append(n)
            return [self.element(spec, f, f['of'], values, env) for _ in range(n)]
        if kind == 'sel':
            self.call('sel', spec, f, values, env)
            which = f['of'][1 if holds(f['on'], values, env) else 0]
            self.put(f, env)
            if f.get('own'):
                self.level += 1
                self.hit('recursion_%d' % self.level if which is spec else 'recursion_ends')
            v = self.obj(which, env)
            self.level -= 1 if f.get('own') else 0
            return v
        raise AssertionError(kind)

    def put(self, f, env):
        """User code may put things in the context, for the fields after it to see."""
        if f.get('put'):
            env['deep'] = 7
            self.hit('context_puts_by_' + f['kind'])

    def put_int(self, typ, v):
        size, order = INTS[typ]
        self.out += v.to_bytes(size, order)

    def sized(self, spec, f, values, env):
        self.hit('sizes_by_probe')
        self.call('read', spec, f, values, env)
        at, n = len(self.out), self.rng.choice((0, 1, 1, 2, 3))
        self.out.append(n)
        if f['what'] in ('str', 'buf'):
            v = bytes(bytearray(self.rng.randint(1, 255) for _ in range(n)))
            self.out += v
            return v
        v = [self.element(spec, f, f['of'], values, env) for _ in range(n)]
        if f['what'] == 'sum':
            self.out[at] = size = len(self.out) - at - 1 if len(self.out) - at < 257 else 0
            if not size and v:
                raise Overflow()
        return v

    def probe(self, spec, f, values, env, put):
        self.call('read', spec, f, values, env)
        v = self.rng.getrandbits(8)
        self.out.append(v)
        if put:
            env['deep'] = 7
            self.hit('context_puts_seen')
        return v

    def element(self, spec, f, el, values, env):
        if el['kind'] == 'int':
            v = number(self.rng, el['type'], False) if self.rng.random() < 0.85 else 0
            if not v and f['kind'] == 'opt':
                self.hit('optional_zero')
            self.put_int(el['type'], v)
            return v
        if el['kind'] == 'str':
            v = bytes(bytearray(self.rng.randint(1, 255) for _ in range(self.rng.choice((0, 0, 1, 2)))))
            if not v and f['kind'] == 'opt':
                self.hit('optional_empty')
            self.out.append(len(v))
            self.out += v
            return v
        if el['kind'] == 'probe':
            return self.probe(spec, f, values, env, False)
        return self.obj(el['of'], env)

    # -- the calls which writing and printing make to the user's own marshals

    def walk(self, spec, tree, env, calls, writing):
        env = self.env_of(spec, env)
        values = tree['$v']
        for f in spec['fields']:
            kind = f['kind']
            if kind == 'bits':
                continue
            v = values[f['name']]
            if kind == 'probe' or kind == 'const' or kind == 'map' and writing:
                if kind == 'map':
                    v = int(v[1:])
                calls.append((spec['name'], f['name'], v, tuple(sorted(env.items()))))
            elif kind == 'opt' and v is not None:
                self.walk_el(spec, f, f['of'], v, env, calls, writing)
            elif kind in ('parr', 'arr', 'psum', 'sized'):
                if kind == 'sized' and writing:
                    n = sum(SIZE(f['of'], x) for x in v) if f['what'] == 'sum' else len(v)
                    calls.append((spec['name'], f['name'], n, tuple(sorted(env.items()))))
                if kind != 'sized' or f['what'] in ('arr', 'sum'):
                    for x in v:
                        self.walk_el(spec, f, f['of'], x, env, calls, writing)
            elif kind == 'nest':
                self.walk(f['of'], v, env, calls, writing)
            elif kind in ('sel', 'key'):
                self.walk([s for s in f['of'] if s['name'] == v['$c']][0], v, env, calls, writing)

    def walk_el(self, spec, f, el, v, env, calls, writing):
        if el['kind'] == 'probe':
            calls.append((spec['name'], f['name'], v, tuple(sorted(env.items()))))
        elif el['kind'] == 'cls':
            self.walk(el['of'], v, env, calls, writing)


def SIZE(el, v):
    """The size of an element, whose classes tell by what is in them."""
    if el['kind'] == 'cls':
        return sum(size_of(f, v['$v']) for f in el['of']['fields'])
    return 1 if el['kind'] == 'probe' else 1 + len(v) if el['kind'] == 'str' else INTS[el['type']][0]


def size_of(f, values):
    kind, v = f['kind'], values[f['name']]
    if kind == 'int':
        return INTS[f['type']][0]
    if kind in ('bits', 'probe', 'map', 'const'):
        return 1
    if kind in ('call', 'ptr', 'lazyptr') or v is None:
        return 0
    if kind == 'opt':
        return SIZE(f['of'], v)
    if kind == 'pstr' or kind == 'sized' and f['what'] in ('str', 'buf'):
        return len(v) + (kind == 'sized')
    if kind in ('parr', 'arr', 'psum', 'sized'):
        return sum(SIZE(f['of'], x) for x in v) + (kind == 'sized' or kind == 'arr' and f['fixed'] is None)
    spec = f['of'] if kind == 'nest' else [s for s in f['of'] if s['name'] == v['$c']][0]
    return SIZE({'kind': 'cls', 'of': spec}, v)


class Overflow(Exception):
    pass


# -- the real thing -------------------------------------------------------------------------------------------------

class Tap(object):
    """A stream that only reads, and counts what it handed out."""

    def __init__(self, data):
        self.data, self.pos = data, 0

    def read(self, size):
        r = self.data[self.pos:self.pos + size]
        self.pos += len(r)
        return r


class Real(object):
    def __init__(self, spec):
        self.calls = []
        self.writes = []
        self.reprs = []
        self.tap = None
        self.broken = []
        self.scribbles = 0
        self.classes = {}
        self.contexts = {}
        self.cls = self.build(spec)

    def snapshot(self, context):
        d = dict(context.get_dict())
        d.pop('struct', None)
        for k, v in d.items():
            if context.get(k, None) != v or context.get(k, 'unset') != v:
                self.broken.append("context.get(%r) is not what get_dict() has" % (k,))
        # what the context hands out is the user's own: changing it changes nothing for others
        mine = context.get_dict()
        mine['ver'], mine['scribble'] = 99, 1
        mine.pop('mode', None)
        more = context.writable_copy({'deep': 98})
        more.put('ver', 97)
        more.put('scribble', 2)
        if more.get('deep', None) != 98 or more.get('ver', None) != 97 or more.get('mode', None) != d.get('mode'):
            self.broken.append("a writable copy does not have what was put in it")
        self.scribbles += 1
        after = dict(context.get_dict())
        after.pop('struct', None)
        if after != d or context.get('scribble', None) is not None:
            self.broken.append("changes of a copy of the context are seen in the context: %r" % (after,))
        return tuple(sorted(d.items()))

    def log(self, what, spec, f, obj, context):
        if context.get('struct', None) is not obj:
            self.broken.append("%s of %s.%s: context's struct is not the object being read" % (what, spec['name'], f['name']))
        names = tuple(sorted(n for n in field_names(spec) if getattr(obj, n) is not None)) if not f.get('nosnap') else ()
        if type(obj) is not self.classes[spec['name']]:
            self.broken.append("%s of %s.%s got a %r" % (what, spec['name'], f['name'], type(obj)))
        self.calls.append((what, spec['name'], f['name'], names, self.tap.pos if self.tap else None, self.snapshot(context)))

    def probe(self, spec, f, put):
        from infi.instruct.base import Marshal, MinMax
        real = self

        class Probe(Marshal):
            def create_from_stream(self, stream, context, *args, **kwargs):
                real.log('read', spec, f, context.get('struct', None), context)
                data = stream.read(1)
                if len(data) != 1:
                    raise ValueError("no data")
                if put:
                    context.put('deep', 7)
                return bytearray(data)[0]

            def write_to_stream(self, obj, stream, context):
                real.check_struct(spec, context, 'write')
                real.writes.append((spec['name'], f['name'], obj, real.snapshot(context)))
                stream.write(bytes(bytearray([obj])))

            def to_repr(self, obj, context):
                real.check_struct(spec, context, 'repr')
                real.reprs.append((spec['name'], f['name'], obj, real.snapshot(context)))
                return 'P%d' % obj

            def sizeof(self, obj):
                return 1

            def min_max_sizeof(self):
                return MinMax(1, 1)
        return Probe()

    def check_struct(self, spec, context, what):
        obj = context.get('struct', None)
        if type(obj) is not self.classes[spec['name']]:
            self.broken.append("%s in %s: context's struct is a %r" % (what, spec['name'], type(obj)))

    def predicate(self, spec, f):
        def pred(obj, stream, context):
            self.log('pred', spec, f, obj, context)
            values = dict((n, getattr(obj, n)) for n in field_names(spec))
            met = holds(f['pred'], values, context)
            if f.get('put'):
                context.put('deep', 7)
            return met
        return pred

    def selector(self, spec, f):
        def select(obj, stream, context):
            self.log('sel', spec, f, obj, context)
            values = dict((n, getattr(obj, n)) for n in field_names(spec))
            which = f['of'][1 if holds(f['on'], values, context) else 0]
            if f.get('put'):
                context.put('deep', 7)
            return self.classes[which['name']]
        return select

    def caller(self, spec, f):
        def func(stream, context):
            obj = context.get('struct', None)
            self.log('call', spec, f, obj, context)
            if f['put']:
                context.put('deep', 7)
            return before(spec, f)
        return func

    def element(self, spec, f, el):
        import infi.instruct as I
        from infi.instruct.string import VarSizeStringMarshal
        if el['kind'] == 'int':
            return getattr(I, el['type'])
        if el['kind'] == 'str':
            return VarSizeStringMarshal(I.UBInt8)
        if el['kind'] == 'probe':
            return self.probe(spec, f, False)
        return self.build(el['of'])

    def build(self, spec):
        import infi.instruct as I
        from infi.instruct.struct.pointer import ReadPointer
        from infi.instruct.base import CallableReader
        from infi.instruct.array import VarSizeArrayMarshal, FixedSizeArrayMarshal, SumSizeArrayMarshal
        from infi.instruct.string import VarSizeStringMarshal, VarSizeBufferMarshal
        from infi.instruct.mapping import FixedSizeMappingMarshal
        fields, extra = [], {}
        for f in spec['fields']:
            name, kind = f['name'], f['kind']
            if kind == 'int':
                fields.append(getattr(I, f['type'])(name))
            elif kind == 'bits':
                group = I.BitFields(I.BitField(name, f['w']), I.BitField(f['name2'], 8 - f['w']))
                fields.append(I.Lazy(group) if f['where'] else group)
            elif kind == 'opt':
                fields.append(I.OptionalField(name, self.element(spec, f, f['of']), self.predicate(spec, f),
                                              **({'default': f['default']} if 'default' in f else {})))
            elif kind == 'probe':
                fields.append(I.Field(name, self.probe(spec, f, f['put'])))
            elif kind in ('ptr', 'lazyptr'):
                target = f['to']
                if f['prop']:
                    extra['twice_' + target] = property(lambda self, t=target: getattr(self, t) * 2)
                    target = 'twice_' + target
                field = I.Field(name, ReadPointer(target))
                fields.append(field if kind == 'ptr' else I.Lazy(field))
            elif kind == 'parr':
                fields.append(I.Field(name, VarSizeArrayMarshal(ReadPointer(f['to']), self.element(spec, f, f['of']))))
            elif kind == 'pstr':
                fields.append(I.Field(name, VarSizeStringMarshal(ReadPointer(f['to']))))
            elif kind == 'psum':
                fields.append(I.Field(name, SumSizeArrayMarshal(ReadPointer(f['to']), self.element(spec, f, f['of']))))
            elif kind == 'call':
                fields.append(I.Field(name, CallableReader(self.caller(spec, f))))
            elif kind == 'nest':
                fields.append(I.Field(name, self.build(f['of'])))
            elif kind == 'arr':
                el = self.element(spec, f, f['of'])
                fields.append(I.Field(name, VarSizeArrayMarshal(I.UBInt8, el) if f['fixed'] is None else
                                      FixedSizeArrayMarshal(f['fixed'], el)))
            elif kind == 'map':
                fields.append(I.Field(name, FixedSizeMappingMarshal(dict(('k%d' % i, i) for i in range(256)), self.probe(spec, f, False))))
            elif kind == 'const':
                fields.append(I.ConstField(name, f['value'], self.probe(spec, f, False)))
            elif kind == 'sized':
                size, what = self.probe(spec, f, False), f['what']
                fields.append(I.Field(name, VarSizeStringMarshal(size) if what == 'str' else VarSizeBufferMarshal(size) if what == 'buf' else
                                      (VarSizeArrayMarshal if what == 'arr' else SumSizeArrayMarshal)(size, self.element(spec, f, f['of']))))
            elif kind == 'key':
                fields.append(I.Field(name, I.StructSelector(self.probe(spec, f, False), dict((i + 65, self.build(s)) for i, s in enumerate(f['of'])))))
            elif kind == 'sel':
                for s in f['of']:
                    if s is not spec:
                        self.build(s)
                fields.append(I.SelectStructByFunc(name, self.selector(spec, f)))
        attrs = {'_fields_': fields}
        attrs.update(extra)
        bases = (I.Struct,)
        if spec['inherit']:
            battrs = {'_fields_': fields}
            if spec.get('basectx') is not None:
                battrs['_context_'] = dict(spec['basectx'])
            base = type(I.Struct)('Base' + spec['name'], bases, battrs)
            if spec.get('basectx') is not None:
                self.contexts['Base' + spec['name']] = (base, dict(spec['basectx']))
            bases = (base,)
            if extra or True:
                attrs.pop('_fields_')
        if spec.get('ctx') is not None:
            attrs['_context_'] = dict(spec['ctx'])
        cls = type(I.Struct)(str(spec['name']), bases, attrs)
        if spec.get('ctx') is not None:
            self.contexts[spec['name']] = (cls, dict(spec['ctx']))
        self.classes[spec['name']] = cls
        return cls

    def make(self, tree):
        if isinstance(tree, dict):
            obj = self.classes[tree['$c']]()
            for k, v in tree['$v'].items():
                setattr(obj, k, self.make(v))
            return obj
        if isinstance(tree, list):
            return [self.make(x) for x in tree]
        return tree

    def data(self, obj, spec):
        if type(obj) is not self.classes[spec['name']]:
            return {'$c': type(obj).__name__, '$v': None}
        out = {}
        for f in spec['fields']:
            v = getattr(obj, f['name'])
            if f['kind'] == 'bits':
                out[f['name2']] = getattr(obj, f['name2'])
            out[f['name']] = self.value(f, v)
        return {'$c': spec['name'], '$v': out}

    def value(self, f, v):
        kind = f['kind']
        if kind == 'opt':
            return None if v is None else self.elem_value(f['of'], v)
        if kind in ('parr', 'arr', 'psum') or kind == 'sized' and f['what'] in ('arr', 'sum'):
            return [self.elem_value(f['of'], x) for x in v]
        if kind == 'nest':
            return self.data(v, f['of'])
        if kind in ('sel', 'key'):
            for s in f['of']:
                if type(v) is self.classes[s['name']]:
                    return self.data(v, s)
            return {'$c': type(v).__name__, '$v': None}
        return v

    def elem_value(self, el, v):
        return self.data(v, el['of']) if el['kind'] == 'cls' else v


def before(spec, f):
    """What a callable reader returns: the number of named fields in front of it."""
    n = 0
    for g in spec['fields']:
        if g is f:
            return n
        n += 2 if g['kind'] == 'bits' else 1


def field_names(spec):
    out = []
    for f in spec['fields']:
        out.append(f['name'])
        if f['kind'] == 'bits':
            out.append(f['name2'])
    return out


def has_lazy(spec):
    return any(f['kind'] == 'lazyptr' or f.get('where') for f in spec['fields'])


def lazy_below(spec):
    if has_lazy(spec):
        return True
    for f in spec['fields']:
        of = f.get('of')
        for s in ([of] if isinstance(of, dict) else of or []):
            s = s['of'] if s.get('kind') == 'cls' else s
            if 'fields' in s and s is not spec and lazy_below(s):
                return True
    return False


def linked(spec):
    """Classes that hold themselves."""
    spec = copy.deepcopy(spec)

    def link(spec):
        for f in spec['fields']:
            of = f.get('of')
            for s in ([of] if isinstance(of, dict) else of or []):
                s = s['of'] if s.get('kind') == 'cls' else s
                if 'fields' in s:
                    link(s)
            if f.get('own'):
                f['of'].append(spec)
    link(spec)
    return spec


def check(case, obs):
    import random
    from infi.instruct.base import ReadOnlyContext, WritableContext
    spec = linked(case['spec'])
    tree = None
    env = dict(case['ctx'] or {})
    for attempt in range(12):
        model = Model(random.Random("%s|%s" % (case['seed'], attempt)))
        try:
            tree = model.obj(spec, env)
            break
        except Overflow:
            tree = None
    if tree is None:
        obs.hit('no_small_object')
        return
    for k, v in model.stats.items():
        obs.hit(k, v)
    data = bytes(model.out)
    real = Real(spec)
    cls = real.cls

    def context():
        if case['ctx'] is None:
            return ()
        return (ReadOnlyContext(dict(case['ctx'])) if case['ctxkind'] == 'ro' else WritableContext(dict(case['ctx'])),)

    def unchanged(ctx):
        for c in ctx:
            obs.equal(c.get_dict(), case['ctx'], 'caller-context', "the caller's context after the operation")
            obs.hit('caller_contexts_checked')
            obs.hit('large_contexts', len(case['ctx']) > 9)
        for name, (owner, want) in real.contexts.items():
            obs.equal(owner.__dict__['_context_'], want, 'class-context', "_context_ of %s after the operation", name)
        obs.expect(not real.broken, 'context-struct', "%s", real.broken[:2])

    # reading
    for again in range(2):
        real.calls[:] = []
        ctx = context()
        real.tap = Tap(data + b'\xee' * case['tail'])
        if again and not case['tail']:
            obj = cls.create_from_string(data, *ctx)
            obs.hit('reread_same_class')
            pos = False
        else:
            obj = cls.create_from_stream(real.tap, *ctx)
            pos = True
            obs.equal(real.tap.pos, len(data), 'consumed', "bytes taken from the stream")
        got = [c if pos else c[:4] + (None,) + c[5:] for c in real.calls]
        want = [c if pos else c[:4] + (None,) + c[5:] for c in model.calls]
        compare_calls(obs, got, want, 'reading')
        obs.hit('read')
        real.calls[:] = []
        if case['seed'] & 1:
            # use the lazy ones first
            obs.equal(real.data(obj, spec), tree, 'values', "values read")
        unchanged(ctx)
        write(obs, real, model, case, spec, obj, tree, data, context, unchanged)
        obs.equal(real.data(obj, spec), tree, 'values', "values read")
    # an object that was built
    built = real.make(tree)
    write(obs, real, model, case, spec, built, tree, data, context, unchanged)
    obs.equal(real.data(built, spec), tree, 'values', "values after writing")
    obs.hit('context_copies_changed', real.scribbles)
    # the same bytes under another context: what does not depend on it stays the same
    other(obs, real, case, spec, data)
    lazy_group(obs, case)


def lazy_group(obs, case):
    """Fields of a lazy group are decoded at their first use, by marshals that see the object and the context it was read with."""
    import random
    import infi.instruct as I
    from infi.instruct.base import Marshal, MinMax, ReadOnlyContext, WritableContext
    from infi.instruct.array import FixedSizeArrayMarshal
    rng = random.Random("lazy|%s" % case['seed'])
    calls = []

    class Probe(Marshal):
        def __init__(self, name):
            self.name = name

        def create_from_stream(self, stream, context, *args, **kwargs):
            d = context.get_dict()
            owner = d.pop('struct', None)
            calls.append((self.name, id(owner), d))
            return bytearray(stream.read(1))[0]

        def write_to_stream(self, obj, stream, context):
            stream.write(bytes(bytearray([obj])))

        def sizeof(self, obj):
            return 1

        def min_max_sizeof(self):
            return MinMax(1, 1)
    n = rng.choice((1, 2, 3, 3, 4, 5, 8))
    fields, probes, want, data = [], [], {}, bytearray()
    for i in range(n):
        name, kind = 'g%d' % i, rng.choice(('probe', 'probe', 'int', 'bits', 'arr', 'nest', 'const'))
        size = {'arr': 2, 'nest': 2}.get(kind, 1)
        v = [rng.getrandbits(8) for _ in range(size)]
        if kind == 'probe':
            fields.append(I.Field(name, Probe(name)))
        elif kind == 'const':
            fields.append(I.ConstField(name, v[0], Probe(name)))
        elif kind == 'int':
            fields.append(I.UBInt8(name))
        elif kind == 'bits':
            fields.append(I.BitFields(I.BitField(name, 3), I.BitField(name + 'h', 5)))
            want[name + 'h'] = v[0] >> 3
        elif kind == 'arr':
            fields.append(I.Field(name, FixedSizeArrayMarshal(2, Probe(name))))
        else:
            fields.append(I.Field(name, type(I.Struct)('Inner', (I.Struct,), {'_fields_': [I.Field('a', Probe(name)), I.UBInt8('b')]})))
        data += bytearray(v)
        want[name] = v if kind == 'arr' else tuple(v) if kind == 'nest' else v[0] & 7 if kind == 'bits' else v[0]
        probes += [(name, kind == 'nest')] * {'probe': 1, 'const': 1, 'arr': 2, 'nest': 1}.get(kind, 0)
    attrs = {'_fields_': [I.UBInt8('before'), I.Lazy(*fields), I.UBInt8('after')]}
    if rng.random() < 0.6:
        attrs['_context_'] = dict((k, number_or_none(rng)) for k in KEYS if rng.random() < 0.6)
    cls = type(I.Struct)('Group', (I.Struct,), attrs)
    env = dict(attrs.get('_context_', {}), **(case['ctx'] or {}))
    ctx = () if case['ctx'] is None else ((ReadOnlyContext if case['ctxkind'] == 'ro' else WritableContext)(dict(case['ctx'])),)
    objs = [cls.create_from_string(b'\x01' + bytes(data) + b'\x02', *ctx) for _ in range(2)]
    for obj in objs if rng.random() < 0.5 else objs[::-1]:
        obs.equal((obj.before, obj.after), (1, 2), 'lazy-group', "the fields around a lazy group")
        obs.expect(not calls, 'lazy-group', "fields were decoded before they were used: %r", calls[:2])
        first = rng.choice(sorted(want))
        getattr(obj, first)
        obs.equal([c[0] for c in calls], [p[0] for p in probes], 'lazy-group', "calls of user code at the first use of a lazy group of %d fields", n)
        for c, (name, inner) in zip(calls, probes):
            obs.equal(c[2], env, 'lazy-group', "the context that %s in a lazy group of %d fields is decoded with", name, n)
            owner = id(getattr(obj, name)) if inner else id(obj)
            obs.expect(c[1] == owner, 'lazy-group', "context's struct is not the object whose field %s is decoded", name)
        calls[:] = []
        got = dict((k, getattr(obj, k)) for k in want)
        got = dict((k, (v.a, v.b) if isinstance(v, I.Struct) else v) for k, v in got.items())
        obs.equal(got, want, 'lazy-group', "values of a lazy group")
        obs.expect(not calls, 'lazy-group', "fields were decoded again: %r", calls[:2])
        obs.hit('lazy_groups_of_3_or_more' if n > 2 else 'lazy_groups')


def compare_calls(obs, got, want, what):
    obs.hit('calls_compared', len(want) + 1)
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        obs.expect(g == w, 'calls', "%s: call %d of user code (what, class, field, fields set, bytes read, context) is %r, "
                   "expected %r", what, i, g, w)


def write(obs, real, model, case, spec, obj, tree, data, context, unchanged):
    want = []
    model.walk(spec, tree, dict(case['ctx'] or {}), want, True)
    real.writes[:] = []
    ctx = context()
    obs.equal(real.cls.write_to_string(obj, *ctx), data, 'bytes', "bytes written")
    unchanged(ctx)
    obs.expect(real.writes == want, 'write-calls', "writing handed %r to the user's marshals, expected %r", real.writes, want)
    obs.hit('write_calls', len(want))
    obs.equal(real.cls.sizeof(obj), len(data), 'sizeof', "sizeof")
    if not lazy_below(spec):
        real.reprs[:] = []
        ctx = context()
        real.cls.to_repr(obj, *ctx)
        unchanged(ctx)
        want = []
        model.walk(spec, tree, dict(case['ctx'] or {}), want, False)
        obs.expect(real.reprs == want, 'repr-calls', "printing handed %r to the user's marshals, expected %r", real.reprs,
                   want)
        obs.hit('repr_calls', len(want))


def other(obs, real, case, spec, data):
    """Two reads of the same class with other contexts do not influence each other."""
    from infi.instruct.base import WritableContext
    real.tap = Tap(data)
    real.calls[:] = []
    try:
        real.cls.create_from_stream(real.tap, WritableContext(dict(case['ctx2'])))
    except Exception:
        pass
    real.calls[:] = []
    real.tap = Tap(data)
    ctx = () if case['ctx'] is None else (WritableContext(dict(case['ctx'])),)
    obj = real.cls.create_from_stream(real.tap, *ctx)
    obs.equal(real.tap.pos, len(data), 'other-context', "bytes taken after a read with another context")
    obs.equal(real.cls.write_to_string(obj, *ctx), data, 'other-context', "bytes after a read with another context")
