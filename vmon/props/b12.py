"""Cyclic definitions are reported as such; definitions without a cycle never are."""
import copy

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B12'
RULE = ("random graphs of references between 2-9 fields (values, lengths, offsets after a field, total size, positions, "
        "counts, conditions), with and without cycles, packed and unpacked; long chains and dense acyclic graphs; "
        "enumerated: all graphs of value references over 3 fields")
CASES = {'quick': 2600, 'thorough': 180000}
REQUIRE = {'cyclic_packs': 700, 'acyclic_packs': 900, 'cyclic_unpacks': 200, 'acyclic_unpacks': 1200, 'long_chains': 60,
           'enumerated_cases': 300, 'nested_cycles': 31, 'recovered_after_cycle': 250, 'cycle_of_one': 60,
           'dense_packs': 45, 'dense_unpacks': 45, 'dense_faults': 15, 'ordered_graphs': 450, 'graphs_of_texts': 400, 'circles_of_texts': 200}


def uint(name, where, width=32):
    return {'kind': 'int', 'signed': False, 'endian': 'big', 'api': 0, 'width': width, 'name': name, 'w': where}


def exhaustive(tier):
    names = ['a', 'b', 'c']
    for mask in range(512):
        fields = []
        for i, n in enumerate(names):
            f = uint(n, ['sl', 4 * i, 4 * i + 4])
            targets = [names[j] for j in range(3) if mask >> (i * 3 + j) & 1]
            if targets:
                e = ['+', 1, ['self', targets[0]]]
                for t in targets[1:]:
                    e = ['+', e, ['self', t]]
                f['sbp'] = ['ref', e]
            fields.append(f)
        yield {'spec': {'name': 'X', 'fields': fields, 'base': None}, 'values': {'a': 5, 'b': 70, 'c': 900}, 'inputs': []}


def bounded(e, top=20):
    return ['min', ['max', e, 0], top]


def generate(rng, tier):
    if rng.random() < 0.06:
        ops = rng.sample(('add', 'sub', 'mul', 'min', 'max', 'call', 'mixed', 'cast'), rng.choice((1, 1, 1, 2, 4)))
        case = {'dense': [rng.choice(ops) for _ in range(rng.choice((3, 20, 45, 70)))],
                'use': rng.choice(('value', 'position', 'count', 'condition')), 'start': rng.randint(0, 9),
                'through_fields': rng.random() < 0.3, 'fault': None}
        if rng.random() < 0.3:
            case.update(fault=rng.choice(('cycle', 'value')), dense=[rng.choice(ops) for _ in range(11)], use='value')
        return case
    n = rng.randint(2, 9)
    chain = rng.random() < 0.1
    if chain:
        n = rng.randint(12, 24)
    names = bufgen.WORDS[:]
    rng.shuffle(names)
    names = names[:n]
    fields, values = [], {}
    density = rng.choice((0.2, 0.35, 0.6))
    cyclic = rng.random() < 0.6 and not chain
    if cyclic:
        density *= rng.choice((0.5, 1))
    order = list(range(n))
    rng.shuffle(order)            # references go down this order when there must be no cycle
    rank = dict((names[i], order[i]) for i in range(n))
    lists = set(x for x in names if rng.random() < 0.2)
    texts = set(x for x in names if x not in lists and rng.random() < (0.6 if rng.random() < 0.3 else 0.2) and not chain)
    defined = []

    def target(me):
        pool = names if cyclic else [x for x in names if rank[x] < rank[me]]
        return rng.choice(pool) if pool else None

    def ref(me, depth=2):
        if chain:
            below = [x for x in names if rank[x] == rank[me] - 1]
            if not below:
                return rng.randint(0, 3)
            t = below[0]
            return ['lens', t] if t in lists else ['+', ['self', t], 1]
        r = rng.random()
        if depth and r < 0.3:
            return [rng.choice(('+', 'min', 'max')), ref(me, depth - 1), ref(me, depth - 1)]
        t = target(me)
        if t is None:
            return rng.randint(0, 3)
        if t in lists or t in texts:
            return ['lens', t]
        if r < 0.4 and t in defined:
            return ['after', t]
        if r < 0.45 and cyclic:
            return ['tot']
        return ['self', t]

    for i, name in enumerate(names):
        base = 64 * i
        f = uint(name, ['sl', base, base + 4])
        if name in lists:
            k = rng.randint(0, 3)
            f = {'kind': 'list', 'elem': ['int', 1, False, 'big'], 'name': name, 'w': ['sl', base, None], 'var': True}
            if rng.random() < 0.7:
                f['n'] = k
            values[name] = [rng.randint(0, 9) for _ in range(k)]
            if rng.random() < density:
                e = numeric(ref(name))
                if e is not None:
                    f['n'] = bounded(e, 3)
        elif name in texts:
            # What refers to these is not a number.
            f = {'kind': 'str', 'name': name, 'w': ['sl', base, base + 4]}
            values[name] = ''.join(rng.choice('abcxyz') for _ in range(4))
            others = [x for x in texts if cyclic or rank[x] < rank[name]]
            if others and rng.random() < density * 1.5:
                t = rng.choice(others)
                f['sbp'] = ['ref', ['f' if t in defined and rng.random() < 0.5 else 'any', t]]
        else:
            values[name] = rng.randint(0, 20)
        if rng.random() < density or chain:
            e = numeric(ref(name))
            if e is not None:
                start = ['+', base, bounded(e)]
                f['w'] = ['sl', start, None if name in lists else ['+', start, 4]]
        if name not in lists and name not in texts and rng.random() < density:
            e = numeric(ref(name))
            if e is not None:
                f['sbp'] = ['ref', ['+', bounded(e, 1000), rng.randint(0, 3)]]
        if name not in lists and rng.random() < density * 0.4:
            e = numeric(ref(name))
            if e is not None:
                f['pif'] = ['cmp', '>=', e, 0]
                if rng.random() < 0.5:
                    f['uif'] = f['pif']
        earlier = [x for x in defined if cyclic or rank[x] < rank[name]]
        if earlier and not chain and rng.random() < density * 0.5:
            f['ua'] = rng.sample(earlier, min(len(earlier), rng.choice((1, 1, 2))))
        fields.append(f)
        defined.append(name)
    # Definition order is not reference order; references by object need what they name to be defined before.
    spec = {'name': 'Graph', 'fields': fields, 'base': None}
    if rng.random() < 0.1:
        spec = {'name': 'Outer', 'base': None, 'fields': [
            uint('head_', ['at', 0], 8), {'kind': 'buf', 'spec': spec, 'name': 'inner_', 'w': ['sl', 1, None]}]}
        values = {'head_': 1, 'inner_': values}
    size = 64 * n + 48
    inputs = [bytes(bytearray(rng.choice((0, 0, 0, rng.randint(0, 30))) for _ in range(size))) for _ in range(2)]
    return {'spec': spec, 'values': values, 'inputs': inputs, 'chain': chain}


def numeric(e):
    """None if there is no reference in it."""
    return e if isinstance(e, list) and not bufmodel.is_static(e) else None


def cycle_in(e):
    from infi.instruct.buffer.reference import CyclicReferenceError
    seen = 0
    while e is not None and seen < 100:
        if isinstance(e, CyclicReferenceError) or 'CyclicReferenceError' in type(e).__name__:
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


class Runaway(BaseException):
    pass


class Counted(int):
    """A number that counts the operations done with it."""
    budget = [0]


def _counted(name):
    operation = getattr(int, name)

    def method(self, *args):
        Counted.budget[0] -= 1
        if Counted.budget[0] < 0:
            raise Runaway()
        result = operation(self, *args)
        return Counted(result) if type(result) is int else result
    return method


for _name in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'gt', 'le', 'ge'):
    setattr(Counted, '__%s__' % _name, _counted('__%s__' % _name))


def dense_level(B, op, e, v):
    if op == 'add':
        return e + e - e, v
    if op == 'sub':
        return (e - e) + 3, 3
    if op == 'mul':
        return e * 2 - e, v
    if op == 'min':
        return B.min_ref(e, e), v
    if op == 'max':
        return B.max_ref(e, e + 1, e) - 1, v
    if op == 'call':
        return B.num_ref(B.self_ref.second(e, e)), v
    if op == 'cast':
        c = B.num_ref(e)
        return c + e - c, v
    return B.max_ref(e - e, B.min_ref(e, e), 1) + 0, max(v, 1)


def check_dense(case, obs):
    """Every level uses the one below it several times: that is no reason to compute it more than once."""
    from infi.instruct import buffer as B
    from infi.instruct.buffer import Buffer
    from infi.instruct.buffer.buffer import InstructBufferError
    derived = {'set_before_pack': B.num_ref(B.self_ref.x)} if case['fault'] == 'cycle' else {}
    attrs = {'n': B.uint_field(where=B.bytes_ref[0:1], set_after_unpack=Counted, **derived),
             'second': lambda self, a, b: b}
    e, v, widths = attrs['n'], case['start'], 0
    levels = case['dense'][:25] if case['through_fields'] else case['dense']
    for i, op in enumerate(levels):
        e, v = dense_level(B, op, e, v)
        if case['through_fields']:
            name = 'level%d' % i
            f = attrs[name] = B.uint_field(where=B.bytes_ref[20 + i:21 + i], set_before_pack=e, set_after_unpack=Counted)
            e = B.num_ref(getattr(B.self_ref, name)) if i % 2 else f
    pad = 60
    if case['use'] == 'value':
        attrs['x'] = B.uint_field(where=B.bytes_ref[1:2], set_before_pack=e)
    elif case['use'] == 'position':
        attrs['x'] = B.uint_field(where=B.bytes_ref[e + pad:e + pad + 1])
    elif case['use'] == 'count':
        attrs['x'] = B.list_field(type=B.uint8, n=e, where=B.bytes_ref[pad:])
    else:
        attrs['x'] = B.uint_field(where=B.bytes_ref[1:2], pack_if=e > 4, unpack_if=e > 4)
    cls = type('Dense', (Buffer,), attrs)
    values = list(range(1, v + 1))
    obj = cls(n=Counted(case['start']), x=values if case['use'] == 'count' else 9)
    if case['fault']:
        if case['fault'] == 'value':
            obj.n = Counted(300)
        Counted.budget[0] = 20000
        try:
            data = obj.pack()
        except InstructBufferError as e:
            obs.hit('dense_faults')
            obs.expect(cycle_in(e) == (case['fault'] == 'cycle'), 'dense-fault', "%r: %s", case, str(e)[:300])
            obs.expect(len(str(e)) < 2000000, 'endless-message', "an error message of %d characters for %r", len(str(e)), case)
            return
        except Runaway:
            obs.fail('runaway', "more than 20000 operations for an expression of %d levels" % len(levels))
        finally:
            Counted.budget[0] = 1 << 60
        obs.fail('dense-accepted', "%r was packed as %r" % (case, data))
    Counted.budget[0] = 20000
    try:
        data = obj.pack()
        obs.hit('dense_packs')
        back = cls()
        back.unpack(bytes(data) + b'\x07' * 100 if case['use'] == 'count' else data)
        obs.hit('dense_unpacks')
    except Runaway:
        obs.fail('runaway', "more than 20000 operations for an expression of %d levels" % len(levels))
    finally:
        Counted.budget[0] = 1 << 60
    want = {'value': v, 'position': 9, 'count': values, 'condition': 9 if v > 4 else None}[case['use']]
    obs.equal(back.x, want, 'dense-value', "%r", case)
    if case['use'] == 'position':
        obs.equal(len(data), pad + v + 1, 'dense-position', "%r", case)


def check(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    if 'dense' in case:
        return check_dense(case, obs)
    obs.hit('ordered_graphs', any(f.get('ua') for f in case['spec']['fields']))
    spec, values = case['spec'], case['values']
    nested = spec['name'] == 'Outer'
    try:
        real = bufcheck.Real(spec, obs)
    except InstructBufferError as e:
        # Every position refers to something: no size is computed when the class is made.
        obs.fail('class', "the class could not be made: %s" % str(e)[:500])
    if case.get('chain'):
        obs.hit('long_chains')
    want, stored, err = bufcheck.model_encode(spec, values)
    fields = (spec['fields'][1]['spec'] if nested else spec)['fields']
    obs.hit('graphs_of_texts', any(f['kind'] == 'str' and f.get('sbp') for f in fields))
    if not isinstance(err, bufmodel.Unspecified):
        obj = real.make(values)
        got, perr = real.try_pack(obj)
        if err is None:
            obs.hit('acyclic_packs')
            obs.expect(perr is None, 'false-cycle' if cycle_in(perr) else 'rejected', "pack() failed: %s", str(perr)[:600])
            obs.equal(got, want, 'image', "%r", values)
            now = real.plain(obj)
            obs.expect(same(now, stored), 'stored', "%s", bufcheck.diff(now, stored))
        elif 'cycle' in str(err):
            obs.hit('cyclic_packs')
            obs.hit('circles_of_texts', circle_of_texts(fields))
            if nested:
                obs.hit('nested_cycles')
            obs.expect(perr is not None, 'cycle-missed', "packed %r in spite of a cycle", got)
            obs.expect(cycle_in(perr), 'cycle-unnamed', "the error doesn't say that there is a cycle: %s", str(perr)[:600])
            for f in spec['fields']:
                if f.get('sbp') and ['self', f['name']] in f['sbp'][1]:
                    obs.hit('cycle_of_one')
                    break
            # It fails the same way every time, and other objects of the class are not affected.
            _, again = real.try_pack(obj)
            obs.expect(again is not None and cycle_in(again) and again.attr_name == perr.attr_name, 'cycle-unstable',
                       "the second pack() gave %s", str(again)[:300])
            size_fails(obj, obs)
            obs.hit('recovered_after_cycle')
        else:
            obs.hit('other_errors')
            obs.expect(perr is not None, 'accepted', "packed %r although %s", got, err)
    for raw in case['inputs']:
        want, used, err = bufcheck.model_decode(spec, raw)
        if isinstance(err, bufmodel.Unspecified):
            obs.hit('unspecified')
            continue
        try:
            got, got_used = real.unpack(raw)
        except InstructBufferError as e:
            obs.expect(err is not None, 'false-cycle' if cycle_in(e) else 'rejected', "unpack() failed: %s", str(e)[:600])
            failing = bufcheck.failing_fields(spec, raw)
            if cycles_only(spec, raw):
                obs.hit('cyclic_unpacks')
                obs.expect(cycle_in(e), 'cycle-unnamed', "the error doesn't say that there is a cycle: %s", str(e)[:600])
            obs.expect(failing is None or e.attr_name in failing, 'wrong-field', "the error names %s, want one of %s",
                       e.attr_name, failing)
            continue
        obs.expect(err is None, 'cycle-missed', "unpacked in spite of %s", err)
        obs.hit('acyclic_unpacks')
        obs.expect(same(got, want), 'decoded', "%r: %s", raw, bufcheck.diff(got, want))
        obs.equal(float(got_used), float(used), 'consumed', "%r", raw)


def circle_of_texts(fields):
    """Whether there is a circle of values that no number has a part in."""
    after = dict((f['name'], f['sbp'][1][1]) for f in fields if f['kind'] == 'str' and f.get('sbp'))
    for name in after:
        seen, n = set(), name
        while n in after and n not in seen:
            seen.add(n)
            n = after[n]
        if n == name:
            return True
    return False


def size_fails(obj, obs):
    """The size may or may not depend on what is cyclic, but computing it ends."""
    try:
        obj.calc_byte_size()
    except Exception:
        obs.hit('sizes_failed')
    else:
        obs.hit('sizes_computed')


def cycles_only(spec, raw):
    """True if each field that cannot be read is on, or depends on, a cycle."""
    ev = bufmodel.UnpackEval(spec, bufmodel.bits_of_bytes(raw))
    bad = []
    for f in ev.fields:
        try:
            if ev.applies(f):
                ev.value(f['name'])
        except bufmodel.ModelError as e:
            bad.append(str(e))
    return bool(bad) and all('cycle' in b for b in bad)
