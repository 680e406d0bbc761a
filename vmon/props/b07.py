"""Values that do not fit are rejected by name; values that are too long stay inside their field."""
import copy

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import GeneratorError, same

ID = 'B07'
RULE = ("objects of random classes with one or two values made unrepresentable (out of range by one or by far, negative "
        "in bit ranges, wrong type, too short for the range, not encodable, bad list elements and nested values): pack() "
        "must fail naming the class and a field that cannot be packed; over-long values must be cut to their range; "
        "enumerated: the limits of every integer width, sign and byte order; then the value is corrected and packed")
CASES = {'quick': 3200, 'thorough': 170000}
REQUIRE = {'rejections': 2200, 'corrected': 2200, 'contained': 150, 'bad_int': 700, 'bad_type': 400, 'bad_short': 60,
           'bad_element': 69, 'bad_text': 60, 'bad_nested': 60, 'enumerated_cases': 290, 'limits_accepted': 430}


def exhaustive(tier):
    widths = [(w, False) for w in range(1, 70 if tier == 'quick' else 200)]
    widths += [(8, True), (16, True), (32, True), (64, True)]
    n = 0
    for w, signed in widths:
        for endian in ('native', 'big', 'little'):
            for shift in (0, 3) if tier == 'quick' else (0, 1, 3, 7):
                if endian == 'native' and shift:
                    continue
                n += 1
                total = (w + shift + 7) // 8
                where = ['bit', ['sl', 0, total], ['s', shift, shift + w]]
                f = {'kind': 'int', 'signed': signed, 'endian': endian, 'api': n % 3, 'width': w, 'name': 'value', 'w': where}
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
                yield {'spec': {'name': 'X', 'fields': [f], 'base': None}, 'limits': [lo, hi],
                       'bad': [lo - 1, hi + 1, hi + 2, lo - 2, (hi + 1) * 2, (hi + 1) << 8, (hi + 1) << 64, -(hi + 1) * 256,
                               -(1 << 80)]}
    # Contents of every length for byte fields of every number of bits.
    for w in range(1, 42 if tier == 'quick' else 130):
        for shift in (0, 3) if tier == 'quick' else range(8):
            total = (w + shift + 7) // 8
            yield {'contents': w, 'where': [['bit', ['sl', 0, total], ['s', shift, shift + w]]], 'bits': list(range(shift, shift + w))}
            cut = (w * 5 + shift) % w
            if cut:
                # The same number of bits in two pieces, the later one first.
                at = total + 1
                yield {'contents': w, 'where': [['bit', ['sl', at, at + total], ['s', shift, shift + cut]],
                                                ['bit', ['sl', 0, total], ['s', 0, w - cut]]],
                       'bits': list(range(at * 8 + shift, at * 8 + shift + cut)) + list(range(w - cut))}


def check_contents(case, obs):
    import random
    from infi.instruct.buffer.buffer import InstructBufferError
    w, where = case['contents'], case['where']
    where = where[0] if len(where) == 1 else ['sum', where]
    rng = random.Random(repr(where))
    spec = {'name': 'X', 'base': None, 'fields': [{'kind': 'bytes', 'name': 'value', 'w': where}]}
    real = bufcheck.Real(spec, obs)
    need = (w + 7) // 8
    obj = real.cls()
    for n in list(range(need)) + [need, need + 1, need + 5]:
        data = bytearray(rng.getrandbits(8) for _ in range(n))
        obj.value = rng.choice([bytes, bytearray])(data)
        got, err = real.try_pack(obj)
        if n < need:
            obs.hit('rejections')
            obs.hit('bad_short')
            obs.expect(err is not None, 'accepted', "%d bytes were packed into %d bits as %r", n, w, got)
            obs.expect(err.attr_name == 'value' and err.clazz is real.cls, 'wrong-field', "the error names %r of %r",
                       err.attr_name, err.clazz)
            continue
        want = bytearray(max(case['bits']) // 8 + 1)
        for k, p in enumerate(case['bits']):
            want[p >> 3] |= (data[k >> 3] >> (k & 7) & 1) << (p & 7)
        obs.hit('corrected' if n == need else 'contained')
        obs.expect(err is None, 'rejected', "%d bytes were not packed into %d bits: %s", n, w, err)
        obs.equal(got, bytes(want), 'not-contained', "%r packed into the bits %r", bytes(data), case['bits'])


def generate(rng, tier):
    while True:
        case = bufcheck.gen_case(rng, tail=0.3, dynamic=0.3, derived=0.3, floats=0.4, depth=1, text=0.7, lists=0.4,
                                 bits=rng.choice((0.1, 0.4, 0.7)))
        spec, values = case['spec'], case['values']
        data, _, err = bufcheck.model_encode(spec, values)
        if err is not None:
            continue
        bad = copy.deepcopy(values)
        kinds = []
        candidates = [f for f in bufmodel.all_fields(spec) if f.get('sbp') is None and not f.get('flag')
                      and not f.get('tag') and not f.get('sel')]
        if not candidates:
            continue
        for _ in range(rng.choice((1, 1, 1, 2))):
            f = rng.choice(candidates)
            v = spoil(rng, spec, f, values[f['name']])
            if v is None:
                continue
            bad[f['name']] = v[1]
            kinds.append(v[0])
        if kinds:
            case['spoiled'] = bad
            case['kinds'] = kinds
            return case


def spoil(rng, spec, f, v):
    kind, r = f['kind'], rng.random()
    if kind == 'int':
        w = f['width']
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if f['signed'] and w in (8, 16, 32, 64) else (0, (1 << w) - 1)
        if r < 0.75:
            return 'bad_int', rng.choice([lo - 1, hi + 1, hi + 1 + rng.getrandbits(10), lo - 1 - rng.getrandbits(10),
                                          (hi + 1) * rng.randint(1, 9), -(1 << 70), 1 << 70, hi * 2 + 1, (hi + 1) << 8])
        return 'bad_type', rng.choice(['7', [1], None, b'\x01', {}])
    if kind == 'float':
        return 'bad_type', rng.choice(['1.5', None, [1.0]])
    bits = bufgen.room_of(spec, f)
    if kind == 'str':
        if f.get('enc', 'ascii') == 'ascii' and r < 0.6:
            return 'bad_text', v + rng.choice([u'\u05d0', u'\xe9', u'\u20ac'])
        if bits is not None:
            return 'too_long', bufgen.text(rng, bits // 8 + rng.randint(1, 9))
        return None
    if kind == 'bytes':
        if r < 0.3:
            return 'bad_type', rng.choice([None, 'text', {'a': 1}])
        if bits is not None and bits >= 16 and r < 0.65:
            return 'bad_short', bytes(bytearray(rng.getrandbits(8) for _ in range(rng.randrange(bits // 8))))
        if bits is not None:
            return 'too_long', bytes(bytearray(rng.getrandbits(8) for _ in range((bits + 7) // 8 + rng.randint(1, 9))))
        return None
    if kind == 'list':
        if r < 0.2:
            return 'bad_type', rng.choice([None, 5])
        if bits is not None and not f.get('var') and r < 0.4 and len(v) >= 1:
            return 'bad_short', v[:rng.randrange(len(v))]
        if bits is not None and not f.get('var') and r < 0.55 and v:
            return 'too_long', v + [v[0]] * rng.randint(1, 3)
        if f['elem'][0] == 'int' and v:
            out = list(v)
            w = f['elem'][1] * 8
            out[rng.randrange(len(v))] = rng.choice([1 << w, -(1 << (w - 1)) - 1, 'x', None])
            return 'bad_element', out
        return None
    if kind == 'buf':
        if r < 0.4:
            return 'bad_type', None
        inner = copy.deepcopy(v)
        if '$spec' in inner:
            return None
        for g in bufmodel.all_fields(f['spec']):
            if g['kind'] == 'int' and g.get('sbp') is None and not g.get('flag'):
                inner[g['name']] = 1 << (g['width'] + 1)
                return 'bad_nested', inner
        return 'bad_type', None
    return None


def real_object(real, values):
    """Like make, but values may be anything."""
    spec = real.spec
    obj = real.cls()
    for f in bufmodel.all_fields(spec):
        if f.get('sbp') is None:
            setattr(obj, f['name'], real_value(real, f, values[f['name']]))
    return obj


def real_value(real, f, v):
    v = copy.deepcopy(v)
    if f['kind'] == 'buf' and isinstance(v, dict):
        return bufmodel.make_nested(real.builder, f['spec'], v)
    if f['kind'] == 'list' and isinstance(v, list) and f['elem'][0] == 'buf':
        return [bufmodel.make_nested(real.builder, f['elem'][1], x) for x in v]
    return v


def dependents(spec, names):
    """`names` and the fields whose definition refers, directly or not, to one of them: an error may name any of these."""
    fields = bufmodel.all_fields(spec)
    uses = dict((f['name'], bufgen.uses(f)) for f in fields)
    for f in fields:
        if "'tot'" in repr([f.get(k) for k in ('w', 'wp', 'wu', 'pif', 'uif', 'sbp', 'sau', 'n')]):
            uses[f['name']] |= set(uses)
    out = set(names)
    while True:
        more = set(n for n in uses if uses[n] & out) - out
        if not more:
            return out
        out |= more


def must_fail(spec, values):
    """-> set of the fields that cannot be packed; empty if all can; None if unspecified."""
    try:
        return bufmodel.PackEval(spec, copy.deepcopy(values)).failing()
    except bufmodel.Unspecified:
        return None


def check(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    if 'contents' in case:
        return check_contents(case, obs)
    spec = case['spec']
    real = bufcheck.Real(spec, obs)
    if 'limits' in case:
        obj = real.cls()
        for v in case['limits']:
            obj.value = v
            want, _, _ = bufcheck.model_encode(spec, {'value': v})
            obs.hit('limits_accepted')
            obs.equal(real.pack(obj), want, 'limit', "packing the limit %d" % v)
        for v in case['bad']:
            if case['limits'][0] <= v <= case['limits'][1]:
                continue
            obj.value = v
            got, err = real.try_pack(obj)
            obs.hit('rejections')
            obs.expect(err is not None, 'accepted', "%d was packed as %r; the limits are %r", v, got, case['limits'])
            obs.expect(err.attr_name == 'value' and err.clazz is real.cls, 'wrong-field', "the error names %r of %r",
                       err.attr_name, err.clazz)
            obs.expect(obj.value == v, 'value-changed', "a failing pack() changed the value from %r to %r", v, obj.value)
        obj.value = case['limits'][1]
        want, _, _ = bufcheck.model_encode(spec, {'value': obj.value})
        obs.equal(real.pack(obj), want, 'recovery', "packing after failures")
        obs.hit('corrected')
        return
    bufcheck.features(spec, obs)
    for k in case['kinds']:
        obs.hit(k)
    values, bad = case['values'], case['spoiled']
    good, _, err = bufcheck.model_encode(spec, values)
    failing = must_fail(spec, bad)
    obj = real_object(real, bad)
    # pack_if is evaluated before anything else: a condition on a bad value may fail in its own way.
    if failing:
        try:
            got = bytes(obj.pack())
        except InstructBufferError as e:
            obs.hit('rejections')
            obs.expect(e.attr_name in dependents(spec, failing), 'wrong-field',
                       "the error names %r, but %s cannot be packed", e.attr_name, sorted(failing))
            if e.attr_name in failing:
                obs.hit('exact_field')
            obs.expect(e.clazz is real.cls, 'wrong-class', "the error names class %r", e.clazz)
            obs.expect(e.attr_name in str(e), 'message', "message without the field: %s", str(e)[:300])
        else:
            obs.fail('accepted', "packed %r although %s cannot be packed" % (got, sorted(failing)))
    elif failing is not None:
        want, _, merr = bufcheck.model_encode(spec, bad)
        if merr is None and not any(f['kind'] == 'json' and bad[f['name']] != values[f['name']]
                                    for f in bufmodel.all_fields(spec) if f.get('sbp') is None):
            # Too long: cut to its range, and everything else is in its place.
            got, perr = real.try_pack(obj)
            obs.hit('contained')
            obs.expect(perr is None and got == want, 'not-contained', "packed %r, want %r (values %r)",
                       got if perr is None else str(perr)[:300], want, bad)
    # With the values corrected, the same object packs as if nothing had happened.
    for f in bufmodel.all_fields(spec):
        if f.get('sbp') is None:
            setattr(obj, f['name'], real_value(real, f, values[f['name']]))
    got, perr = real.try_pack(obj)
    obs.hit('corrected')
    obs.expect(perr is None and got == good, 'recovery', "after a failing pack() the corrected object packed %r, want %r",
               got if perr is None else str(perr)[:300], good)
