"""Helpers shared by the buffer monitors: run the real class and the reference side by side."""
import copy

from vmon import bufgen, bufmodel
from vmon.core import Violation, same

MODEL_ERRORS = (bufmodel.ModelError, bufmodel.Unspecified)


def gen_case(rng, **opts):
    g = bufgen.Gen(rng, **opts)
    spec = g.spec()
    return {'spec': spec, 'values': bufgen.values(rng, spec)}


def mutate(rng, data):
    """An input near a valid one, or not near at all."""
    r = rng.random()
    if r < 0.25:
        n = max(0, len(data) + rng.randint(-3, 6))
        return bytes(bytearray(rng.getrandbits(8) for _ in range(n)))
    out = bytearray(data)
    if r < 0.45:
        out = bytearray(b ^ (rng.getrandbits(8) if rng.random() < 0.2 else 0) for b in out)
    elif r < 0.6 and out:
        out[rng.randrange(len(out))] ^= 1 << rng.randrange(8)
    elif r < 0.75:
        out += bytearray(rng.getrandbits(8) for _ in range(rng.randint(1, 8)))
    elif r < 0.85 and out:
        del out[rng.randrange(len(out)):]
    else:
        out = bytearray(rng.choice((0, 255, b)) for b in out)
    return bytes(out)


def model_encode(spec, values):
    """(bytes, stored values, None) or (None, None, reason)."""
    try:
        data, stored = bufmodel.encode(spec, copy.deepcopy(values))
        return data, stored, None
    except MODEL_ERRORS as e:
        return None, None, e


def model_decode(spec, data):
    try:
        values, used = bufmodel.decode(spec, data)
        return values, used, None
    except MODEL_ERRORS as e:
        return None, None, e


def failing_fields(spec, data):
    ev = bufmodel.UnpackEval(spec, bufmodel.bits_of_bytes(data))
    try:
        ev.run()
    except bufmodel.ModelError:
        return ev.failing
    except bufmodel.Unspecified:
        return None
    return set()


class Real(object):
    """The real class of a spec."""

    def __init__(self, spec, obs):
        self.spec = spec
        self.obs = obs
        self.trace = bufmodel.Trace()
        self.builder = bufmodel.Builder(self.trace)
        self.cls = self.builder.build(spec)
        obs.hit('classes_built')

    def make(self, values, how='kwargs'):
        return bufmodel.make(self.builder, self.spec, copy.deepcopy(values), how)

    def plain(self, obj):
        return bufmodel.plain(self.builder, self.spec, obj)

    def pack(self, obj):
        data = obj.pack()
        self.obs.hit('packs')
        if not isinstance(data, (bytes, bytearray)):
            raise Violation('pack-type', "pack() returned a %s" % type(data).__name__)
        if len(data) > 64:
            self.obs.hit('large_images')
        return bytes(data)

    def unpack(self, data):
        obj = self.cls()
        used = obj.unpack(data)
        self.obs.hit('unpacks')
        return self.plain(obj), used

    def try_unpack(self, data):
        """-> (values, used, None) or (None, None, error)."""
        from infi.instruct.buffer.buffer import InstructBufferError
        try:
            values, used = self.unpack(data)
            return values, used, None
        except InstructBufferError as e:
            self.obs.hit('unpack_errors')
            return None, None, e

    def try_pack(self, obj):
        from infi.instruct.buffer.buffer import InstructBufferError
        try:
            return self.pack(obj), None
        except InstructBufferError as e:
            self.obs.hit('pack_errors')
            return None, e
        except AssertionError as e:
            # More than the size the class declares.
            if self.cls.byte_size is None or 'declared byte size' not in str(e):
                raise
            self.obs.hit('pack_errors')
            return None, e


def features(spec, obs, seen=None):
    """Counts what the generated class contains: evidence of what the workload reached."""
    for f in bufmodel.all_fields(spec):
        obs.hit('field_' + f['kind'])
        w = f.get('w')
        if w is None:
            obs.hit('feature_split_position')
        else:
            if w[0] in ('ls', 'sum') and len(w[1]) > 1:
                obs.hit('feature_multi_range')
            if w[0] == 'bit' or (w[0] == 'sum' and any(x[0] == 'bit' for x in w[1])):
                obs.hit('feature_bit_range')
            if not bufmodel.is_static(w):
                obs.hit('feature_computed_position')
        if f.get('pif') is not None:
            obs.hit('feature_conditional')
        if f.get('sbp') is not None:
            obs.hit('feature_derived')
            obs.hit('feature_mirror', 'mirror' in f)
        obs.hit('feature_scattered', 'scattered' in f)
        if f.get('sel'):
            obs.hit('feature_selector')
        if f.get('ua'):
            obs.hit('feature_order')
            obs.hit('feature_function', 'mf' in repr([f.get(k) for k in ('w', 'wp', 'wu', 'pif', 'uif', 'n')]))
        if f['kind'] == 'buf' and not f.get('sel'):
            features(f['spec'], obs)
        if f['kind'] == 'list' and f['elem'][0] == 'buf' and not f.get('sel'):
            features(f['elem'][1], obs)
    if spec.get('base'):
        obs.hit('feature_inheritance')
    if spec.get('byte_size') is not None:
        obs.hit('feature_declared_size')


def nontrivial(case):
    spec = case['spec']
    return len(bufmodel.all_fields(spec)) >= 2


def diff(got, want, path=''):
    """The first place where two plain values differ."""
    if isinstance(got, dict) and isinstance(want, dict):
        for k in want:
            if k not in got:
                return "%s.%s is missing" % (path, k)
            if not same(got[k], want[k]):
                return diff(got[k], want[k], '%s.%s' % (path, k))
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            if not same(a, b):
                return diff(a, b, '%s[%d]' % (path, i))
    return "%s: got %r, want %r" % (path, got, want)
