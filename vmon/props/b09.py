"""A class hierarchy is the same as one flat class with the winning definition of each field."""
import copy

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B09'
RULE = ("the fields of a random class dealt to a random hierarchy of 2-6 classes (chains, diamonds, several bases), some "
        "of them overriding a different definition of the same name in an ancestor; every class of the hierarchy that is "
        "complete on its own is compared with the reference for the flat class: bytes, values, size, constructor, repr, "
        "before and after the other classes are created and used")
CASES = {'quick': 900, 'thorough': 60000}
REQUIRE = {'classes_compared': 1800, 'hierarchies': 500, 'multiple_bases': 210, 'diamonds': 80, 'overrides': 350,
           'images_compared': 3000, 'decodes_compared': 2500, 'base_after_subclass': 700, 'static_sizes': 500,
           'unknown_field_rejected': 500, 'field_buf': 50, 'field_list': 50, 'feature_derived': 150,
           'feature_conditional': 60, 'named_like_the_base': 30}


def generate(rng, tier):
    while True:
        g = bufgen.Gen(rng, inherit=0, declared=0, dynamic=rng.choice((0, 0.6)), tail=rng.choice((0, 0.5)), derived=0.4,
                       cond=0.5, max_bytes=rng.choice((6, 14)), depth=1, bits=rng.choice((0.1, 0.5)))
        spec = g.spec()
        if len(spec['fields']) >= 2:
            break
    n = rng.randint(2, 6)
    bases = [[]]
    for k in range(1, n):
        pool = list(range(k))
        m = 1 if rng.random() < 0.5 else rng.randint(1, min(3, k))
        bases.append(rng.sample(pool, m))
    bases[n - 1] = sorted(set(range(n - 1)) - set(b for bs in bases[:n - 1] for b in bs), reverse=rng.random() < 0.5) \
        if n > 1 else []
    # owner of each field
    owner = {}
    for f in spec['fields']:
        owner[f['name']] = rng.randrange(n)
    used = set()
    for f in spec['fields']:
        used |= needs(f)
    decoys = []
    for f in spec['fields']:
        if f['name'] in used or rng.random() < 0.6:
            continue
        above = ancestors(bases, owner[f['name']])
        if not above:
            continue
        a = rng.choice(sorted(above))
        d = {'kind': 'int', 'signed': False, 'endian': rng.choice(bufgen.ENDIANS), 'api': rng.randint(0, 2), 'width': 16,
             'name': f['name'], 'w': ['sl', 40 + 2 * len(decoys), 42 + 2 * len(decoys)]}
        if rng.random() < 0.3:
            d = {'kind': 'str', 'name': f['name'], 'w': ['sl', 40 + 2 * len(decoys), 42 + 2 * len(decoys)]}
        if rng.random() < 0.25:
            # The overriding field drops what the overridden one had.
            d['sbp'] = ['const', 7 if d['kind'] == 'int' else 'Z']
        decoys.append([a, d])
    case = {'spec': spec, 'bases': bases, 'owner': owner, 'decoys': decoys, 'values': []}
    size = bufmodel.static_bits(spec)
    if size is not None and rng.random() < 0.15:
        case['declared'] = (size + 7) // 8 + rng.choice((0, 1, 5, 90))
    case['seed'] = rng.getrandbits(30)
    case['buffer'] = rng.randrange(n) if rng.random() < 0.1 else None        # the class that is called Buffer
    return case


def needs(f):
    out = bufgen.uses(f)
    if isinstance(f.get('n'), list) and f['n'][0] == 'mf':
        out.add(f['n'][1])
    if f.get('counts'):
        out.add(f['counts'])
    return out


def ancestors(bases, k):
    out = set()
    for b in bases[k]:
        out.add(b)
        out |= ancestors(bases, b)
    return out


class Hierarchy(object):
    def __init__(self, case, obs):
        self.case, self.obs = case, obs
        self.builder = bufmodel.Builder()
        spec = case['spec']
        refs = {}
        for f in spec['fields']:
            refs[f['name']] = self.builder.field(f, refs, spec)
        self.members = [dict() for _ in case['bases']]
        self.attrs = [dict() for _ in case['bases']]
        for f in spec['fields']:
            k = case['owner'][f['name']]
            self.members[k][f['name']] = f
            self.attrs[k][f['name']] = refs[f['name']]
        for a, d in case['decoys']:
            if d['name'] not in self.members[a]:
                self.members[a][d['name']] = d
                self.attrs[a][d['name']] = self.builder.field(d, {}, spec)
                obs.hit('overrides')
        self.classes = []

    def name(self, k):
        if self.case.get('buffer') == k:
            self.obs.hit('named_like_the_base')
            return 'Buffer'
        return 'Class%d' % k

    def create(self, k):
        """None when Python itself refuses this combination of bases."""
        from infi.instruct import buffer as B
        bases = [self.classes[b] for b in self.case['bases'][k]]
        if any(b is None for b in bases):
            return None
        attrs = dict(self.attrs[k])
        last = k == len(self.case['bases']) - 1
        if last and 'declared' in self.case:
            attrs['byte_size'] = self.case['declared']
        try:
            type('Plain', tuple(shadow_type(b) for b in bases), {})
        except TypeError:
            return None
        name = self.name(k)
        cls = type(name, tuple(bases) or (B.Buffer,), attrs)
        if len(bases) > 1:
            self.obs.hit('multiple_bases')
            if len(set.intersection(*[set(b.mro()) for b in bases])) > 2:
                self.obs.hit('diamonds')
        return cls

    def flat(self, k):
        """The flat class which the k-th class stands for, or None if it isn't complete."""
        cls = self.classes[k]
        fields, order = {}, []
        for c in cls.mro():
            if c in self.classes:
                for name in sorted(self.members[self.classes.index(c)]):
                    if name not in fields:
                        fields[name] = self.members[self.classes.index(c)][name]
                        order.append(name)
        true = dict((f['name'], f) for f in self.case['spec']['fields'])
        for f in fields.values():
            for name in needs(f):
                if fields.get(name) is not true.get(name):
                    return None
        out = {'name': self.name(k), 'fields': [fields[n] for n in order], 'base': None}
        if k == len(self.case['bases']) - 1 and 'declared' in self.case:
            out['byte_size'] = self.case['declared']
        return out


_shadow = {}


def shadow_type(cls):
    """An ordinary class with the same ancestry: tells whether Python accepts the bases."""
    from infi.instruct.buffer import Buffer
    if cls not in _shadow:
        if cls.__bases__ == (object,) or cls is Buffer:
            _shadow[cls] = type('S', (object,), {})
        else:
            _shadow[cls] = type('S', tuple(shadow_type(b) for b in cls.__bases__), {})
    return _shadow[cls]


def check(case, obs):
    import random
    _shadow.clear()
    h = Hierarchy(case, obs)
    rng = random.Random(case['seed'])
    obs.hit('hierarchies')
    bufcheck.features(case['spec'], obs)
    for k in range(len(case['bases'])):
        h.classes.append(h.create(k))
        if h.classes[k] is None:
            obs.hit('inconsistent_bases')
            continue
        compare(h, k, rng, obs)
        if k and rng.random() < 0.5:
            j = rng.randrange(k)
            if h.classes[j] is not None:
                compare(h, j, rng, obs)
                obs.hit('base_after_subclass')
    for k in reversed(range(len(case['bases']))):
        if h.classes[k] is not None:
            compare(h, k, rng, obs)
            obs.hit('base_after_subclass')


def compare(h, k, rng, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    spec, cls = h.flat(k), h.classes[k]
    if spec is None:
        obs.hit('incomplete_classes')
        return
    obs.hit('classes_compared')
    size = bufmodel.static_bits(spec)
    obs.expect((cls.byte_size is None) == (size is None), 'static-size', "byte_size of class %d is %r, want %r", k,
               cls.byte_size, size)
    if size is not None:
        obs.hit('static_sizes')
        obs.equal(float(cls.byte_size), size / 8.0, 'static-size', "byte_size of class %d (%r)", k, cls.mro())
    # A private builder: the reference class is the hierarchy's own.
    b = bufmodel.Builder()
    b.classes = dict(h.builder.classes)
    b.classes[spec['name']] = (spec, cls)
    values = bufgen.values(rng, spec)
    want, stored, err = bufcheck.model_encode(spec, values)
    obj = bufmodel.make(b, spec, copy.deepcopy(values), rng.choice(('kwargs', 'attrs', 'reversed')))
    fresh = cls()
    for f in spec['fields']:
        obs.expect(getattr(fresh, f['name']) is None, 'default', "field %s of a new object is %r", f['name'],
                   getattr(fresh, f['name']))
    if err is None:
        obs.hit('images_compared')
        got = obj.pack()
        obs.equal(bytes(got), want, 'image', "class %d with bases %r: %r", k, cls.mro(), values)
        now = bufmodel.plain(b, spec, obj)
        for f in spec['fields']:
            obs.expect(same(now[f['name']], norm(f, stored[f['name']])), 'stored', "field %s after pack(): %r, want %r",
                       f['name'], now[f['name']], stored[f['name']])
        data = bytes(want)
        for raw in (data, bufcheck.mutate(rng, data)):
            wvalues, used, derr = bufcheck.model_decode(spec, raw)
            if isinstance(derr, bufmodel.Unspecified):
                continue
            back = cls()
            try:
                gused = back.unpack(raw)
            except InstructBufferError as e:
                obs.hit('rejected')
                obs.expect(derr is not None, 'decode', "%r was rejected: %s", raw, str(e)[:300])
                obs.expect(e.clazz is cls, 'error-class', "the error names class %r instead of %r", e.clazz, cls)
                continue
            obs.hit('decodes_compared')
            obs.expect(derr is None, 'decode', "%r was accepted although %s", raw, derr)
            gvalues = bufmodel.plain(b, spec, back)
            obs.expect(same(gvalues, wvalues), 'decode', "class %d, %r: %s", k, raw, bufcheck.diff(gvalues, wvalues))
            obs.equal(float(gused), float(used), 'consumed', "class %d, %r", k, raw)
    text = repr(obj)
    for f in spec['fields']:
        obs.expect(f['name'] + '=' in text, 'repr', "field %s is not in %s", f['name'], text[:300])
        obs.expect(text.count(f['name'] + '=') >= 1, 'repr', "field %s", f['name'])
    try:
        cls(no_such_field=1)
    except (AssertionError, TypeError, AttributeError):
        obs.hit('unknown_field_rejected')
    else:
        obs.fail('constructor', "an unknown field was accepted")


def norm(f, v):
    return bytearray(v) if f['kind'] == 'bytes' and isinstance(v, bytes) else v
