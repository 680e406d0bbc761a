"""Range declarations select exactly the bits they describe, in their order."""
from vmon import bufmodel, large
from vmon.core import GeneratorError

ID = 'B14'
RULE = ("one field placed by a range expression (bytes, byte slices, lists of them, bit indices, bit slices and lists of "
        "bits of all those, sums, open ranges cut by a bit slice, numbers given by other fields), observed by packing and "
        "unpacking single bits; enumerated: every bit slice of every byte slice and of every pair of byte slices over 4 "
        "bytes, all pairs of bit slices of two bytes for overlaps; random nested expressions")
CASES = {'quick': 2600, 'thorough': 300000}
REQUIRE = {'many_ranges': 28, 'many_ranges_rejected': 80, 'selections': 8000, 'overlaps_rejected': 2500, 'out_of_range_rejected': 300, 'single_bits_packed': 14000,
           'single_bits_unpacked': 14000, 'dynamic_selections': 400, 'multi_range_selections': 2000, 'open_parents': 70,
           'open_selections': 2000, 'shared_ranges': 1000}

REFS_AT = 60            # the fields that give numbers live here


def spans(n):
    return [(a, b) for a in range(n) for b in range(a + 1, n + 1)]


def exhaustive(tier):
    for case in large.cases((5, 9, 17, 33, 64, 65, 130)):
        yield case
    n = 4 if tier == 'quick' else 5
    for a, b in spans(n):
        yield {'op': 'bits', 'of': ['sl', a, b]}
        yield {'op': 'bits', 'of': ['ls', [['sl', a, b]]]}
        for c, d in spans(n):
            if d <= a or b <= c:
                yield {'op': 'bits', 'of': ['ls', [['sl', a, b], ['sl', c, d]]]}
                for e, f in spans(n):
                    if (f <= a or b <= e) and (f <= c or d <= e):
                        yield {'op': 'bits', 'of': ['ls', [['sl', a, b], ['sl', c, d], ['sl', e, f]]]}
    for a in range(n):
        yield {'op': 'bits', 'of': ['at', a]}
        yield {'op': 'bits', 'of': ['sl', a, None]}
        yield {'op': 'bits', 'of': ['sl', None, a + 1]}
        for b in range(n):
            if a != b:
                yield {'op': 'bits', 'of': ['ls', [['at', a], ['at', b]]]}
                yield {'op': 'bits', 'of': ['ls', [['at', a], ['ls', [['at', b]]]]]}
    # Ranges without an end, after others, from a byte of theirs on.
    for a, b in spans(n + 2):
        for of in ([['sl', b, None]], [['sl', a, b], ['sl', b + 1, None]], [['at', b], ['sl', b + 1, None]],
                   [['sl', a, b], ['sl', b, None]], [['sl', b + 1, b + 2], ['sl', a, b], ['sl', b + 3, None]],
                   [['at', b], ['sl', 0, a], ['ls', [['sl', b + 2, None]]]]):
            yield {'op': 'open', 'of': ['ls', of]}
    m = 9 if tier == 'quick' else 14
    for a, b in spans(m):
        yield {'op': 'pairs', 'a': a, 'b': b, 'm': m}


def number(rng, v, refs, name):
    """The number v, written down or given by a field."""
    if rng.random() < 0.7:
        return v
    k = rng.choice((0, 0, 1, 3))
    if v < k:
        return v
    refs[name] = v - k
    e = [rng.choice(['f', 'self']), name]
    if k:
        e = rng.choice([['+', e, k], ['+', k, e]])
    elif rng.random() < 0.2:
        e = ['-', ['+', e, 7], 7]
    return e


def a_location(rng, refs, depth, overlap):
    r = rng.random()
    if r < 0.3 and depth:
        return ['ls', [a_location(rng, refs, depth - 1, overlap) for _ in range(rng.randint(1, 4))]]
    top = 12 if overlap else 40
    a = rng.randint(0, top)
    if r < 0.6:
        return ['at', number(rng, a, refs, 'r%d' % len(refs))]
    b = a + rng.choice((1, 1, 2, 3, 6)) if rng.random() < 0.97 else None
    start = number(rng, a, refs, 'r%d' % len(refs))
    if a == 0 and rng.random() < 0.3:
        start = None
    return ['sl', start, None if b is None else number(rng, b, refs, 'r%d' % len(refs))]


def a_selection(rng, n, depth=1):
    r = rng.random()
    if r < 0.25 and depth:
        return ['l', [a_selection(rng, n, depth - 1) for _ in range(rng.randint(1, 4))]]
    top = n if n is not None else 90
    slack = 3 if rng.random() < 0.1 else 0
    a = rng.randint(0, max(0, top - 1 + slack))
    if r < 0.5:
        return a
    b = rng.randint(a + 1, max(a + 1, min(top + slack, a + rng.choice((1, 3, 8, 17, 60)))))
    return ['s', None if a == 0 and rng.random() < 0.4 else a, None if b == top and rng.random() < 0.5 else b]


def shared_case(rng):
    """Declared ranges that are used in many places: by themselves, in sums, and for their bits."""
    pool = []
    while len(pool) < rng.choice((2, 3, 4)):
        k = len(pool) * 12
        parts = [['at', k + a] if rng.random() < 0.4 else ['sl', k + a, k + a + rng.randint(1, 2)]
                 for a in rng.sample((0, 2, 4, 6), rng.randint(1, 3))]
        e = parts[0] if len(parts) == 1 and rng.random() < 0.6 else [rng.choice(('ls', 'sum')), parts]
        if e[0] != 'sum' and rng.random() < 0.3:
            e = ['bit', e, a_selection(rng, len(locate(e, {})))]
        pool.append(e)
    exprs = list(pool)
    for _ in range(rng.randint(1, 5)):
        x = rng.choice(exprs)
        r = rng.random()
        if r < 0.7:
            exprs.append(['sum', [x] + [rng.choice(exprs) for _ in range(rng.choice((1, 1, 2)))]])
        elif x[0] in ('at', 'sl', 'ls'):
            exprs.append(['bit', x, a_selection(rng, len(locate(x, {})))])
    exprs = [e for e in exprs if not is_bad(e)]
    use = [rng.randrange(len(exprs)) for _ in range(rng.randint(1, 5))]
    return {'op': 'shared', 'exprs': exprs, 'use': use, 'vals': [rng.random() for _ in range(2)]}


def is_bad(e):
    try:
        locate(e, {})
    except Bad:
        return True
    return False


def generate(rng, tier):
    if rng.random() < 0.12:
        return shared_case(rng)
    for _ in range(200):
        refs = {}
        overlap = rng.random() < 0.25
        e = a_location(rng, refs, 2, overlap)
        if rng.random() < 0.6:
            try:
                bits = locate(e, refs)
            except Bad:
                continue
            n = None if isinstance(bits, Open) else len(bits)
            e = ['bit', e, a_selection(rng, n)]
        if rng.random() < 0.15:
            e = ['sum', [e] + [a_location(rng, refs, 1, overlap) for _ in range(rng.randint(1, 2))]]
        try:
            bits = locate(e, refs)
        except Unspecified:
            continue
        except Bad:
            if rng.random() < 0.5:
                return {'op': 'one', 'expr': e, 'refs': refs, 'vals': [rng.random() for _ in range(4)]}
            continue
        if isinstance(bits, Open) and bits and not refs and rng.random() < 0.5:
            return {'op': 'one', 'expr': e, 'refs': refs, 'vals': [rng.random() for _ in range(4)]}
        if isinstance(bits, Open) or not bits or max(bits) >= REFS_AT * 8 or len(refs) > 8:
            continue
        if len(set(bits)) == len(bits) or rng.random() < 0.4:
            return {'op': 'one', 'expr': e, 'refs': refs, 'vals': [rng.random() for _ in range(4)]}
    return {'op': 'one', 'expr': ['at', 0], 'refs': {}, 'vals': [0.5, 0.1, 0.9, 0.3]}


# -- the reference: a range is a list of bit positions ---------------------------------------------

class Bad(Exception):
    """The expression selects bits that its parent does not have."""


class Unspecified(Bad):
    """More ranges after one that has no end."""


class Open(list):
    """The finite beginning of a range without an end."""


def amount(e, refs):
    if e is None or isinstance(e, int):
        return e
    if e[0] in ('f', 'self'):
        return refs[e[1]]
    a, b = amount(e[1], refs), amount(e[2], refs)
    return a + b if e[0] == '+' else a - b


def locate(e, refs):
    op = e[0]
    if op == 'at':
        n = amount(e[1], refs)
        return list(range(n * 8, n * 8 + 8))
    if op == 'sl':
        a, b = amount(e[1], refs) or 0, amount(e[2], refs)
        if b is None:
            return Open(range(a * 8, a * 8 + 400))
        if b < a:
            raise Bad()
        return list(range(a * 8, b * 8))
    if op in ('ls', 'sum'):
        out = []
        for x in e[1]:
            if isinstance(out, Open):
                raise Unspecified()
            part = locate(x, refs)
            out = type(part)(out + part)
        return out
    return select(locate(e[1], refs), e[2])


def select(bits, s):
    if isinstance(s, int):
        if s >= len(bits):
            raise Bad()
        return [bits[s]]
    if s[0] == 's':
        a, b = s[1] or 0, s[2]
        if b is None:
            if a > len(bits):
                raise Bad()
            return type(bits)(bits[a:])
        if b > len(bits) or a > b:
            raise Bad()
        return list(bits[a:b])
    out = []
    for x in s[1]:
        out += select(bits, x)
    return out


# -- observation -----------------------------------------------------------------------------------

def build(expr, refs, obs, builder=None):
    spec = {'name': 'X', 'base': None, 'fields':
            [dict(kind='int', signed=False, endian='little', api=0, name=n, w=['at', REFS_AT + k])
             for k, n in enumerate(sorted(refs))] +
            [dict(kind='int', signed=False, endian='little', api=0, name='x', w=expr)]}
    return (builder or bufmodel.Builder()).build(spec)


def observe(expr, refs, values, obs, one_by_one=True, shared=None):
    from infi.instruct.buffer.buffer import InstructBufferError
    obs.hit('selections')
    builder = None
    if shared is not None:
        builder = bufmodel.Builder()
        builder.shared_ranges = shared
    try:
        bits = locate(expr, refs)
        problem = None
    except Bad:
        problem = 'out-of-range'
    if problem is None and len(set(bits)) != len(bits):
        problem = 'overlaps'
    if problem:
        obs.hit(problem.replace('-', '_') + '_rejected')
        try:
            cls = build(expr, refs, obs, builder)
        except (InstructBufferError, ValueError):
            obs.hit('rejected_at_definition')
            return
        for what, op in (('pack', lambda: cls(x=0, **refs).pack()),
                         ('unpack', lambda: cls().unpack(image([], refs)))):
            try:
                op()
            except InstructBufferError as e:
                obs.expect(e.clazz is cls and e.attr_name == 'x', problem, "%s of %r names %r", what, expr, e.attr_name)
                continue
            obs.fail(problem, "%s accepted the range %r (numbers %r), which selects %s" % (
                what, expr, refs, 'overlapping bits' if problem == 'overlaps' else 'bits out of its parent range'))
        return
    cls = build(expr, refs, obs, builder)
    if isinstance(bits, Open) and bits and len(set(bits)) == len(bits):
        return observe_open(expr, refs, bits, values, obs)
    if isinstance(bits, Open) or not bits:
        return
    w = len(bits)
    if refs:
        obs.hit('dynamic_selections')
    if any(b != a + 1 for a, b in zip(bits, bits[1:])):
        obs.hit('multi_range_selections')
    todo = [(1 << w) - 1] + [int(v * (1 << w)) for v in values]
    if one_by_one:
        todo += [1 << k for k in range(w)] if w <= 9 else [1 << int(v * w) for v in values] + [1, 1 << (w - 1)]
    for v in todo:
        on = [p for k, p in enumerate(bits) if v >> k & 1]
        want = image(on, refs) if refs else image(on, refs)[:max(bits) // 8 + 1]
        obj = cls(x=v, **refs)
        got = bytes(obj.pack())
        obs.equal(got, want, 'pack-bits', "%d in %r (numbers %r) packs", v, expr, refs)
        obs.hit('single_bits_packed')
        back = cls()
        back.unpack(want)
        obs.equal(back.x, v, 'unpack-bits', "%d in %r (numbers %r) unpacks", v, expr, refs)
        # Set every other bit instead: none of them belongs to the field.
        others = bytearray(b'\xff' * REFS_AT) + bytearray(want[REFS_AT:]) if refs else bytearray(b'\xff' * (len(want) + 1))
        for k, p in enumerate(bits):
            if not v >> k & 1:
                others[p >> 3] &= ~(1 << (p & 7)) & 0xff
        back = cls()
        back.unpack(bytes(others))
        obs.equal(back.x, v, 'unpack-bits', "%d in %r (numbers %r), all other bits set, unpacks", v, expr, refs)
        obs.hit('single_bits_unpacked')
    stop = max(bits) + 1
    if refs:
        stop = max(stop, (REFS_AT + len(refs)) * 8)
    obs.expect(obj.calc_byte_size() * 8 == stop, 'size', "the size with a field at %r is %r", expr, obj.calc_byte_size())
    if not refs:
        obs.expect(cls.byte_size is not None and cls.byte_size * 8 == stop, 'size', "the class size with a field at %r is %r",
                   expr, cls.byte_size)
    return bits


def observe_open(expr, refs, bits, values, obs):
    """A range without an end, read and written by a field of bytes."""
    import random
    if refs or any(b % 8 != k % 8 or b - k % 8 != bits[k - k % 8] for k, b in enumerate(bits)) or len(bits) % 8:
        return                      # bytes that begin within a byte cannot be told from the end of the input
    cls = bufmodel.Builder().build({'name': 'X', 'base': None, 'fields': [{'kind': 'bytes', 'name': 'x', 'w': expr}]})
    at = [b // 8 for b in bits[::8]]
    rng = random.Random(repr((expr, values)))
    # The last 50 bytes are the beginning of the open range; those before them have to be there.
    size = max([at[-50:][0]] + [a + 1 for a in at[:-50]])
    for extra in sorted(set([0, 1, 2, rng.randint(0, 30)])):
        data = bytearray(rng.getrandbits(8) for _ in range(size + extra))
        want = bytes(bytearray(data[a] for a in at if a < len(data)))
        back = cls()
        back.unpack(bytes(data))
        obs.equal(bytes(back.x), want, 'unpack-open', "%r of %r", expr, bytes(data))
        if not want:
            continue
        got = bytes(cls(x=want).pack())
        image = bytearray(max([size] + [a + 1 for a in at[:len(want)]]))
        for v, a in zip(bytearray(want), at):
            image[a] = v
        obs.equal(got, bytes(image), 'pack-open', "%r packed into %r", want, expr)
        obs.hit('open_selections')


def image(on, refs):
    out = bytearray(REFS_AT)
    for p in on:
        out[p >> 3] |= 1 << (p & 7)
    return bytes(out) + bytes(bytearray(refs[n] for n in sorted(refs)))


def check(case, obs):
    if 'large' in case:
        large.check_ranges(case['large'], obs)
        return
    import random
    if case['op'] == 'one':
        observe(case['expr'], case['refs'], case['vals'], obs)
    elif case['op'] == 'shared':
        shared = {}
        for i in case['use'] + list(range(len(case['exprs']))):
            obs.hit('shared_ranges')
            observe(case['exprs'][i], {}, case['vals'], obs, one_by_one=False, shared=shared)
    elif case['op'] == 'bits':
        parent = case['of']
        rng = random.Random(repr(parent))
        everything = locate(parent, {})
        n = len(everything)
        if isinstance(everything, Open):
            obs.hit('open_parents')
            n = 20
        else:
            observe(parent, {}, [rng.random(), rng.random()], obs)
        starts = list(range(n))
        if len(starts) > 7:
            starts = sorted(rng.sample(starts, 7))
        for i in starts:
            observe(['bit', parent, i], {}, [], obs)
            stops = list(range(i + 1, n + 1))
            if len(stops) > 4:
                stops = sorted(rng.sample(stops, 4))
            for j in stops:
                s = ['s', None if i == 0 and rng.random() < 0.5 else i, None if j == n and rng.random() < 0.5 else j]
                observe(['bit', parent, s], {}, [rng.random()], obs, one_by_one=False)
                if isinstance(everything, Open):
                    obs.hit('open_parents')
            k = rng.randrange(n)
            observe(['bit', parent, ['l', [i, k]]], {}, [rng.random()], obs, one_by_one=False)
        if not isinstance(everything, Open):
            for s in (n, n + 3, ['s', 0, n + 1], ['s', n - 1, n + 1], ['s', n + 1, n + 2], ['l', [0, n]]):
                observe(['bit', parent, s], {}, [], obs)
    elif case['op'] == 'open':
        parent = case['of']
        observe(parent, {}, [0], obs)
        for i in range(0, 56, 8):
            observe(['bit', parent, ['s', i if i else None, None]], {}, [i], obs)
    elif case['op'] == 'pairs':
        a, b = case['a'], case['b']
        rng = random.Random(repr((a, b)))
        for c, d in spans(case['m']):
            observe(['bit', ['sl', 0, 2], ['l', [['s', a, b], ['s', c, d]]]], {}, [rng.random()], obs, one_by_one=False)
            e, f = rng.choice(spans(case['m']))
            observe(['bit', ['sl', 0, 2], ['l', [['s', a, b], ['s', c, d], ['s', e, f]]]], {}, [rng.random()], obs,
                    one_by_one=False)
            e = rng.randint(a, b)          # nothing, in the middle of others
            observe(['sum', [['bit', ['sl', 0, 2], ['s', a, b]], ['bit', ['sl', 0, 2], ['s', c, d]],
                             ['bit', ['sl', 0, 2], ['s', e, e]]]], {}, [rng.random()], obs, one_by_one=False)
    else:
        raise GeneratorError(case['op'])
