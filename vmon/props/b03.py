"""Decoding: every field is a function of the bits at its declared position, whatever the input."""
from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B03'
RULE = ("unpack() of valid, mutated and random bytes compared field by field with an independent bit-level decoder; the "
        "same input as bytes, bytearray and bit view; bits outside of a class's fields flipped and trailing bytes "
        "appended: nothing may change; enumerated: all bit ranges of 3 bytes against walking and random patterns, inputs of up to 200 KB")
CASES = {'quick': 1600, 'thorough': 90000}
REQUIRE = {'decodes_compared': 4300, 'rejected_as_specified': 500, 'outside_bits_flipped': 2000, 'input_kinds': 8000,
           'enumerated_cases': 200, 'feature_multi_range': 300, 'feature_bit_range': 3000,
           'feature_computed_position': 1000, 'feature_conditional': 100, 'field_list': 500, 'field_buf': 250,
           'field_str': 250, 'field_bytes': 300, 'field_json': 100, 'field_float': 16, 'feature_selector': 20, 'large_inputs': 100}


def exhaustive(tier):
    total = 3 if tier == 'quick' else 6
    n = 0
    for start in range(total * 8):
        for width in range(1, total * 8 - start + 1):
            n += 1
            f = {'kind': 'int', 'signed': n % 2 == 0, 'endian': bufgen.ENDIANS[n % 3], 'api': n % 3, 'width': width,
                 'name': 'value', 'w': ['bit', ['sl', 0, total], ['s', start, start + width]]}
            data = [bytes(bytearray([255] * total)), bytes(bytearray(total)), bytes(bytearray([0x5a, 0xc3, 0x96] * 2)[:total])]
            data += [bytes(bytearray([(1 << (k & 7)) if i == k >> 3 else 0 for i in range(total)]))
                     for k in (start, start + width - 1, max(0, start - 1), min(total * 8 - 1, start + width))]
            yield {'spec': {'name': 'X', 'fields': [f], 'base': None}, 'inputs': data, 'flips': []}
    for size in (255, 256, 4095, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70001, 131072, 200003):
        yield {'large': size}


def generate(rng, tier):
    case = bufcheck.gen_case(rng, bits=rng.choice((0.1, 0.4, 0.7)), depth=2)
    data, _, err = bufcheck.model_encode(case['spec'], case['values'])
    case.pop('values')
    case['inputs'] = [] if data is None else [data] + [bufcheck.mutate(rng, data) for _ in range(4)]
    case['flips'] = [rng.getrandbits(400) for _ in case['inputs']]
    return case


def covered_bits(spec, data):
    """The bits which the fields of the class may depend on, or None when that depends on nested decoding."""
    ev = bufmodel.UnpackEval(spec, bufmodel.bits_of_bytes(data))
    ev.run()
    out = set()
    for f in ev.fields:
        if ev.applies(f):
            for s, e in ev.position(f['name']):
                out.update(range(s, e))
    return out


def check_large(size, obs):
    """Long inputs, against slices of the input itself."""
    from infi.instruct.buffer import Buffer
    from infi.instruct.buffer.io_buffer import BitView
    from infi.instruct.buffer.macros import (be_uint_field, bytearray_field, bytes_ref, input_buffer_length, list_field,
                                             str_field, uint8)
    far = size - 5

    class Large(Buffer):
        offset = be_uint_field(where=bytes_ref[0:4])
        fixed = be_uint_field(where=bytes_ref[far:far + 3])
        far_bits = be_uint_field(where=bytes_ref[far - 4].bits[3:7])
        pointed = be_uint_field(where=bytes_ref[offset:offset + 2])
        middle = bytearray_field(where=bytes_ref[4:far])
        text = str_field(where=bytes_ref[8:far], strip=b'', padding=b'~', encoding='latin-1')
        rest = bytearray_field(where=bytes_ref[4:])
        items = list_field(where=bytes_ref[4:], type=uint8, n=300)
        last = be_uint_field(where=bytes_ref[input_buffer_length - 1])
    for at in (4, size // 2, size - 2):
        data = bytearray((i * 7 + (i >> 8)) & 0x7f for i in range(size))
        data[0:4] = [at >> 24 & 255, at >> 16 & 255, at >> 8 & 255, at & 255]
        data = bytes(data)
        for source in (data, bytearray(data), BitView(data), BitView(b'ab' + data + b'c', 2, 2 + size)):
            obj = Large()
            used = obj.unpack(source)
            obs.hit('large_inputs')
            num = lambda b: int(''.join('%02x' % c for c in bytearray(b)), 16)
            want = {'offset': at, 'fixed': num(data[far:far + 3]), 'far_bits': bytearray(data)[far - 4] >> 3 & 15,
                    'pointed': num(data[at:at + 2]), 'middle': bytearray(data[4:far]), 'rest': bytearray(data[4:]),
                    'text': data[8:far].decode('latin-1').rstrip('~'), 'items': list(bytearray(data[4:304])),
                    'last': bytearray(data)[-1]}
            for name in sorted(want):
                got = getattr(obj, name)
                obs.expect(type(got) == type(want[name]) and got == want[name], 'large',
                           "%s of an input of %d bytes: got %.60r, want %.60r", name, size, got, want[name])
            obs.equal(used, size, 'large', "bytes consumed")


def check(case, obs):
    from infi.instruct.buffer.io_buffer import BitView
    if 'large' in case:
        return check_large(case['large'], obs)
    spec = case['spec']
    real = bufcheck.Real(spec, obs)
    bufcheck.features(spec, obs)
    flips = case['flips'] or [0] * len(case['inputs'])
    for data, flip in zip(case['inputs'], flips):
        want, want_used, merr = bufcheck.model_decode(spec, data)
        if isinstance(merr, bufmodel.Unspecified):
            obs.hit('unspecified_inputs')
            continue
        got, used, err = real.try_unpack(data)
        if merr is not None:
            obs.hit('rejected_as_specified')
            obs.expect(err is not None, 'accepted', "%r was accepted as %r although %s", data, got, merr)
            continue
        obs.expect(err is None, 'rejected', "%r was rejected: %s", data, str(err)[:400])
        obs.hit('decodes_compared')
        obs.expect(same(got, want), 'decode', "%r: %s", data, bufcheck.diff(got, want))
        obs.equal(float(used), float(want_used), 'consumed', "bytes consumed of %r", data)
        mutable = bytearray(data)
        k = 1 + flip % 7
        shifted = bufmodel.bytes_of_bits([1, 0, 1, 1, 0, 0, 1][:k] + bufmodel.bits_of_bytes(data) + [1, 0, 1][:8 - k])
        for other in (mutable, BitView(data), BitView(bytearray(b'\xa5' + data + b'\x5a'), 1, 1 + len(data)),
                      BitView(shifted, k / 8.0, k / 8.0 + len(data))):
            again, used2, err2 = real.try_unpack(other)
            obs.hit('input_kinds')
            obs.expect(err2 is None and same(again, want) and used2 == used, 'input-kind',
                       "%r given as a %s: %r", data, type(other).__name__, again if err2 is None else str(err2)[:300])
        obs.expect(bytes(mutable) == data, 'input-modified', "unpack() changed its input %r to %r", data, bytes(mutable))
        # Bits which no field covers don't matter.
        free = sorted(set(range(len(data) * 8)) - covered_bits(spec, data))
        if free and flip:
            noisy = bytearray(data)
            for k, p in enumerate(free):
                if flip >> (k % 400) & 1:
                    noisy[p >> 3] ^= 1 << (p & 7)
            again, used2, err2 = real.try_unpack(bytes(noisy))
            obs.hit('outside_bits_flipped')
            obs.expect(err2 is None and same(again, want) and used2 == used, 'interference',
                       "bits outside of the fields changed from %r to %r: %r", data, bytes(noisy),
                       again if err2 is None else str(err2)[:300])
