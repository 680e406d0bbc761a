"""Wire layout: the packed bytes are exactly the declared layout, zero everywhere else."""
import copy

from vmon import bufcheck, bufgen, bufmodel

ID = 'B02'
RULE = ("pack() of random buffer classes compared byte for byte with an independent bit-level encoder; every way of "
        "giving the values; enumerated: all bit ranges of 1-24 bits at all offsets in 4 bytes, all whole-byte widths, "
        "both byte orders and signs, all pairs of small ranges in both orders, with boundary values")
CASES = {'quick': 2600, 'thorough': 140000}
REQUIRE = {'large_images': 100, 'images_compared': 4000, 'enumerated_cases': 300, 'feature_multi_range': 500, 'feature_bit_range': 5000,
           'feature_computed_position': 1500, 'feature_conditional': 150, 'feature_derived': 1000, 'field_list': 800,
           'field_buf': 400, 'field_str': 400, 'field_bytes': 500, 'field_json': 150, 'field_float': 25,
           'feature_declared_size': 10, 'gap_bits_zero': 5000}
nontrivial = lambda case: True


def int_values(width, signed):
    top = 1 << width
    vs = [0, 1, top - 1, top >> 1, (top - 1) // 3, 0x0123456789abcdef0123456789 & (top - 1)]
    if signed:
        vs = [v - top if v >= top >> 1 else v for v in vs]
    return sorted(set(vs))


def one(width, where, signed=False, endian='native', api=0):
    return {'kind': 'int', 'signed': signed, 'endian': endian, 'api': api, 'width': width, 'name': 'value', 'w': where}


def exhaustive(tier):
    # every bit range of 4 bytes (thorough: 9)
    total = 4 if tier == 'quick' else 9
    n = 0
    for start in range(total * 8):
        for width in range(1, total * 8 - start + 1):
            if tier == 'quick' and (start > 9 or (width > 24 and start)):
                continue
            n += 1
            signed = width in (8, 16, 32, 64) and n % 2 == 0
            f = one(width, ['bit', ['sl', 0, total], ['s', start, start + width]], signed, bufgen.ENDIANS[n % 3], n % 3)
            yield {'spec': {'name': 'X', 'fields': [f], 'base': None},
                   'many': [{'value': v} for v in int_values(width, signed)], 'values': None}
    # whole-byte widths
    for size in range(1, 13):
        for signed in (False, True):
            for endian in bufgen.ENDIANS:
                for api in (0, 1, 2):
                    f = one(size * 8, ['sl', 1, 1 + size], signed, endian, api)
                    real_signed = signed and size in (1, 2, 4, 8)
                    yield {'spec': {'name': 'X', 'fields': [f], 'base': None},
                           'many': [{'value': v} for v in int_values(size * 8, real_signed)], 'values': None}
    # two ranges, in both orders
    cuts = [(0, 3), (3, 8), (8, 13), (5, 16), (16, 24), (17, 30)]
    for a in cuts:
        for b in cuts:
            if max(a[0], b[0]) < min(a[1], b[1]):
                continue
            width = a[1] - a[0] + b[1] - b[0]
            where = ['sum', [['bit', ['sl', 0, 4], ['s', a[0], a[1]]], ['bit', ['sl', 0, 4], ['s', b[0], b[1]]]]]
            for endian in ('big', 'little'):
                f = one(width, where, False, endian)
                yield {'spec': {'name': 'X', 'fields': [f], 'base': None},
                       'many': [{'value': v} for v in int_values(width, False)], 'values': None}


def generate(rng, tier):
    case = bufcheck.gen_case(rng, max_bytes=24 if rng.random() < 0.1 else 12,
                             bits=rng.choice((0.1, 0.4, 0.7)), gap=rng.choice((0.05, 0.3)))
    case['many'] = [bufgen.values(rng, case['spec'])]
    return case


def check(case, obs):
    spec = case['spec']
    real = bufcheck.Real(spec, obs)
    if case['values'] is not None:
        bufcheck.features(spec, obs)
    many = list(case['many'])
    if case['values'] is not None:
        many.append(case['values'])
    hows = ('kwargs', 'setattr', 'reversed')
    for i, values in enumerate(many):
        want, stored, err = bufcheck.model_encode(spec, values)
        if err is not None:
            obs.hit('not_packable')
            continue
        got = real.pack(real.make(values, hows[i % 3]))
        obs.hit('images_compared')
        ev = bufmodel.PackEval(spec, copy.deepcopy(values))
        ev.run()
        obs.hit('gap_bits_zero', len(want) * 8 - len(ev.image))
        obs.expect(got == want, 'wire-layout', "packed %r, the declared layout gives %r (values %r)", got, want, values)
    # One object, packed with one set of values after the other.
    obj, left = None, None
    for values in many:
        want, stored, err = bufcheck.model_encode(spec, values)
        if err is not None:
            continue
        if obj is None:
            obj = real.make(values)
        else:
            other = real.make(values)
            for f in bufmodel.all_fields(spec):
                if f.get('sbp') is None:
                    setattr(obj, f['name'], getattr(other, f['name']))
        got = real.pack(obj)
        obs.hit('images_compared')
        obs.expect(got == want, 'wire-layout-reused', "a reused object packed %r, want %r", got, want)
