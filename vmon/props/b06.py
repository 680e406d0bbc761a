"""Truncated and malformed input: an error that names the field, never a wrong object, a foreign error or a hang."""
import copy

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B06'
RULE = ("every prefix of packed objects of random classes, and corrupted copies of them (lengths, counts, text bytes, "
        "random bytes): unpack() gives exactly what the reference decoder gives, or an error of the library which names "
        "the class and one of the fields that cannot be read; afterwards the same object and class still work")
CASES = {'quick': 850, 'thorough': 60000}
REQUIRE = {'prefixes': 6700, 'corrupted': 3000, 'errors_checked': 4700, 'accepted_as_specified': 3000,
           'recoveries': 600, 'nested_errors': 100, 'edge_cases': 60, 'views': 2500, 'feature_multi_range': 100, 'feature_bit_range': 1500,
           'feature_computed_position': 530, 'field_list': 200, 'field_buf': 120, 'field_str': 150, 'field_json': 50}
nontrivial = bufcheck.nontrivial
ASSUMPTIONS = ["byte-array, list and nested fields of a fixed range which the input covers only in part are unspecified"]


def generate(rng, tier):
    if rng.random() < 0.15:
        return edge_case(rng)
    case = bufcheck.gen_case(rng, tail=0.4, text=rng.choice((0.3, 0.8)), sau=0, bits=rng.choice((0.1, 0.4, 0.7)),
                             multi=rng.choice((0.2, 0.6)), floats=0.4)
    return with_inputs(rng, case)


def edge_case(rng):
    """Numbers of bits at the end of the input: cut anywhere, a part of their bits is left."""
    fields, at = [], 0
    for k in range(rng.choice((1, 1, 2))):
        start = rng.randint(1, 7)
        width = rng.choice((rng.randint(2, 9), rng.randint(9, 24), rng.randint(25, 63)))
        n = -(-(start + width) // 8)
        f = {'kind': 'int', 'name': 'v%d' % k, 'signed': rng.random() < 0.4, 'endian': rng.choice(bufgen.ENDIANS),
             'api': rng.randint(0, 2), 'width': width}
        span = ['sl', at, at + n]
        if rng.random() < 0.3:
            m = rng.randint(1, width - 1)
            f['w'] = ['bit', span, ['l', [['s', start + m, start + width], ['s', start, start + m]]]]
        else:
            f['w'] = ['bit', span, ['s', start, start + width]]
        fields.append(f)
        at += n
    rng.shuffle(fields)
    values = dict((f['name'], rng.getrandbits(f['width'] - 1)) for f in fields)
    case = {'spec': {'name': 'Edge', 'fields': fields, 'base': None}, 'values': values, 'edge': True}
    case['view'] = rng.randint(0, 13)
    return with_inputs(rng, case)


def check_views(case, real, data, obs):
    """The input may be a view that ends at any bit."""
    from infi.instruct.buffer.buffer import InstructBufferError
    from infi.instruct.buffer.io_buffer import BitView
    spec, lead = case['spec'], case['view']
    bits = bufmodel.bits_of_bytes(data)
    everything = bufmodel.bytes_of_bits([1] * lead + bits + [1] * 9)
    for n in range(len(bits) + 1):
        view = BitView(everything, lead / 8.0, (lead + n) / 8.0)
        ev = bufmodel.UnpackEval(spec, bits[:n])
        try:
            want, err = ev.run()[0], None
        except bufmodel.ModelError as e:
            want, err = None, e
        obj = real.cls()
        obs.hit('views')
        try:
            obj.unpack(view)
        except InstructBufferError as e:
            obs.expect(err is not None, 'rejected', "%d bits of %r were rejected: %s", n, data, str(e)[:400])
            obs.expect(e.attr_name in ev.failing, 'wrong-field', "%d bits of %r: the error names %r, but %s cannot be read", n, data,
                       e.attr_name, sorted(ev.failing))
            continue
        got = real.plain(obj)
        obs.expect(err is None, 'accepted', "%d bits of %r were accepted as %r although %s", n, data, got, err)
        obs.expect(same(got, want), 'decoded', "%d bits of %r: %s", n, data, bufcheck.diff(got, want))


def with_inputs(rng, case):
    spec = case['spec']
    data, _, err = bufcheck.model_encode(spec, case['values'])
    case['corrupt'] = []
    if data is not None:
        for _ in range(4):
            case['corrupt'].append(bufcheck.mutate(rng, data))
        ctrl = [i for i in range(len(data))]
        for _ in range(2):
            if ctrl:
                out = bytearray(data)
                for _ in range(rng.randint(1, 3)):
                    out[rng.choice(ctrl)] = rng.choice((0, 1, 127, 128, 200, 255, rng.getrandbits(8)))
                case['corrupt'].append(bytes(out))
        case['step'] = 1 if len(data) <= 24 else len(data) // 16
    return case


def check(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    spec, values = case['spec'], case['values']
    data, _, err = bufcheck.model_encode(spec, values)
    if err is not None:
        return
    real = bufcheck.Real(spec, obs)
    bufcheck.features(spec, obs)
    if case.get('edge'):
        obs.hit('edge_cases')
        check_views(case, real, data, obs)
    lengths = list(range(0, len(data), case['step'])) + [len(data)]
    inputs = [(data[:n], 'prefixes') for n in lengths] + [(d, 'corrupted') for d in case['corrupt']]
    reused = real.cls()
    good, good_used = None, None
    for raw, what in inputs:
        obs.hit(what)
        want, used, merr = bufcheck.model_decode(spec, raw)
        if isinstance(merr, bufmodel.Unspecified):
            # Whatever happens, it ends, and it doesn't harm what follows.
            obs.hit('unspecified_inputs')
            try:
                real.cls().unpack(raw)
            except Exception:
                pass
            continue
        obj = real.cls()
        try:
            got_used = obj.unpack(raw)
        except InstructBufferError as e:
            obs.hit('errors_checked')
            obs.expect(merr is not None, 'rejected', "%r was rejected: %s", raw, str(e)[:400])
            failing = bufcheck.failing_fields(spec, raw)
            obs.expect(e.attr_name in failing, 'wrong-field', "%r: the error names %r, but %s cannot be read", raw,
                       e.attr_name, sorted(failing))
            obs.expect(e.clazz is real.cls, 'wrong-class', "the error names class %r, not %r", e.clazz, real.cls)
            obs.expect(e.attr_name in str(e) and spec['name'] in str(e), 'message', "message without field or class: %s",
                       str(e)[:300])
            f = [f for f in bufmodel.all_fields(spec) if f['name'] == e.attr_name][0]
            if f['kind'] == 'buf' or (f['kind'] == 'list' and f['elem'][0] == 'buf'):
                obs.hit('nested_errors')
            # The object that failed can still be used.
            if good is not None:
                used2 = obj.unpack(good)
                obs.hit('recoveries')
                obs.expect(same(real.plain(obj), good_want) and used2 == good_used, 'recovery',
                           "after failing on %r, unpacking %r gave %s", raw, good,
                           bufcheck.diff(real.plain(obj), good_want))
            continue
        got = real.plain(obj)
        obs.hit('accepted_as_specified')
        obs.expect(merr is None, 'accepted', "%r was accepted as %r although %s", raw, got, merr)
        obs.expect(same(got, want), 'decoded', "%r: %s", raw, bufcheck.diff(got, want))
        obs.equal(float(got_used), float(used), 'consumed', "bytes consumed of %r", raw)
        good, good_want, good_used = raw, want, got_used
        used3 = reused.unpack(raw)
        obs.expect(same(real.plain(reused), want) and used3 == got_used, 'reused-object', "%r: %s", raw,
                   bufcheck.diff(real.plain(reused), want))
