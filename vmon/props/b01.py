"""Round trip: what pack() wrote, unpack() reads back."""
import copy

from vmon import bufcheck, bufmodel, large
from vmon.core import same

ID = 'B01'
RULE = ("random buffer classes (bit and byte ranges, scattered and computed positions, derived lengths, conditional, "
        "nested, list, text, float and JSON fields) with edge-biased values: pack, unpack into a fresh object, compare "
        "every field; then unpack mutated bytes, pack the result and unpack it again")
CASES = {'quick': 3000, 'thorough': 160000}
REQUIRE = {'large_records': 13, 'large_images': 100, 'round_trips': 1800, 'second_round_trips': 1500, 'feature_multi_range': 600, 'feature_bit_range': 6000,
           'feature_computed_position': 2000, 'feature_conditional': 200, 'feature_derived': 1200, 'field_list': 1000,
           'field_buf': 500, 'field_str': 500, 'field_bytes': 700, 'field_json': 200, 'field_float': 26,
           'feature_inheritance': 200, 'feature_selector': 40, 'feature_split_position': 80}


def nontrivial(case):
    return 'large' in case or bufcheck.nontrivial(case)


def exhaustive(tier):
    for case in large.cases():
        yield case


def generate(rng, tier):
    case = bufcheck.gen_case(rng, max_bytes=24 if rng.random() < 0.1 else 12)
    data, _, err = bufcheck.model_encode(case['spec'], case['values'])
    case['how'] = rng.choice(('kwargs', 'setattr', 'reversed'))
    case['inputs'] = [bufcheck.mutate(rng, data) for _ in range(2)] if data is not None else []
    return case


def check(case, obs):
    if 'large' in case:
        large.check_record(case['large'], obs)
        return
    spec, values = case['spec'], case['values']
    data, stored, err = bufcheck.model_encode(spec, values)
    real = bufcheck.Real(spec, obs)
    bufcheck.features(spec, obs)
    if err is None:
        obj = real.make(values, case['how'])
        packed = real.pack(obj)
        got, used = real.unpack(packed)
        want = bufmodel.expected_values(spec, copy.deepcopy(values))
        obs.hit('round_trips')
        obs.expect(same(got, want), 'round-trip', "read back %s (packed %r)", bufcheck.diff(got, want), packed)
        obs.expect(used <= len(packed), 'consumed-too-much', "unpack() says it consumed %r of %d bytes", used, len(packed))
        again = real.cls()
        again.unpack(packed)
        obs.equal(real.pack(again), packed, 'repack', "packing what was unpacked")
    for data in case['inputs']:
        values, _, err = bufcheck.model_decode(spec, data)
        if err is not None:
            continue
        obj = real.cls()
        obj.unpack(data)
        again, _, merr = bufcheck.model_encode(spec, values)
        if merr is not None:
            continue
        want, _, merr = bufcheck.model_decode(spec, again)
        if merr is not None:
            continue
        got, _ = real.unpack(real.pack(obj))
        obs.hit('second_round_trips')
        obs.expect(same(got, want), 'second-round-trip', "unpack %r, pack, unpack: %s", data, bufcheck.diff(got, want))
