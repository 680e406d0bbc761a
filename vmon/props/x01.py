"""Buffers used where structs are expected."""
import copy as copying
import io
import random

from vmon import bufcheck, bufgen, bufmodel, large
from vmon.core import same

ID = 'X01'
RULE = ("random buffer classes put through buffer_to_struct_adapter: alone, as field, optional field and array element of structs, "
        "between other fields; written, measured, printed and read, from streams that go on, end early, fail, or give less than asked")
CASES = {'quick': 1100, 'thorough': 120000}
REQUIRE = {'large_adapted': 13, 'alone': 1500, 'fixed': 550, 'varying': 60, 'fractional': 120, 'declared': 130, 'fields': 1100, 'array_elements': 3200,
           'optional_present': 500, 'optional_absent': 500, 'stream_reads': 1300, 'record_sequences': 1100, 'truncated': 2000,
           'refused_streams': 150, 'failed_packs': 500, 'contexts': 700,
           'sizes_after_changes': 1000}


def exhaustive(tier):
    for case in large.cases():
        yield case
    for n in (64, 100, 127, 128, 255, 256, 1000, 4095, 4096, 5000) + (() if tier == 'quick' else (16384, 40000)):
        wide = {'kind': 'bytes', 'name': 'wide', 'w': ['sl', 2, 2 + n]}
        text = {'kind': 'str', 'name': 'text', 'w': ['sl', 2 + n, 12 + n]}
        spec = {'name': 'Wide', 'base': None, 'fields': [
            {'kind': 'int', 'name': 'number', 'signed': False, 'endian': 'big', 'api': 0, 'width': 16, 'w': ['sl', 0, 2]}, wide, text]}
        data = bytes(bytearray((i * 7 + (i >> 8)) & 255 for i in range(n)))
        yield {'spec': spec, 'seed': n, 'bad': None, 'values': [
            {'number': 513, 'wide': data, 'text': 'tenletters'}, {'number': 0, 'wide': data[:n // 2] + bytes(n - n // 2), 'text': ''}]}
    # A class of no bytes, nothing of which is present.
    for n in (0, 3):
        fields = [{'kind': 'int', 'name': 'number', 'signed': False, 'endian': 'big', 'api': 0, 'width': 16, 'w': ['sl', n, n + 2], 'pif': False,
                   'uif': False}]
        yield {'spec': {'name': 'Nothing', 'base': None, 'fields': fields, 'byte_size': n}, 'seed': n, 'bad': None, 'values': [{'number': 5}]}


def generate(rng, tier):
    g = bufgen.Gen(rng, **({} if rng.random() < 0.4 else dict(dynamic=0, tail=0, depth=1, cond=0.1, declared=0.3)))
    spec = g.spec(fixed=rng.random() < 0.5)
    bits = bufmodel.static_bits(spec)
    if bits is not None and spec.get('byte_size') is None and rng.random() < 0.3:
        # A class which ends inside of a byte.
        n, w = (int(bits) + 7) // 8, rng.randint(1, 7)
        spec['fields'].append({'kind': 'int', 'name': 'last_bits', 'signed': False, 'endian': 'native', 'api': 0, 'width': w,
                               'w': ['bit', ['at', n], ['s', 0, w]]})
    values = [bufgen.values(rng, spec) for _ in range(rng.randint(1, 4))]
    bad = None
    ints = [f for f in bufmodel.all_fields(spec) if f['kind'] == 'int' and f['name'] in values[0]]
    if ints:
        bad = rng.choice(ints)['name']
    return {'spec': spec, 'values': values, 'seed': rng.getrandbits(30), 'bad': bad}


def nontrivial(case):
    return 'large' in case or len(bufmodel.all_fields(case['spec'])) > 1


class Source(object):
    """Nothing but read()."""

    def __init__(self, data):
        self.data, self.pos, self.asked = data, 0, 0

    def read(self, n):
        self.asked += n
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


class Broken(Exception):
    pass


def attempt(f, *args):
    try:
        return f(*args), None
    except Exception as e:
        return None, e


def check(case, obs):
    if 'large' in case:
        large.check_adapter(case['large'], obs)
        return
    import infi.instruct as I
    from infi.instruct.base import ReadOnlyContext
    from infi.instruct.buffer.compat import buffer_to_struct_adapter
    spec = case['spec']
    rng = random.Random(case['seed'])
    real = bufcheck.Real(spec, obs)
    cls = real.cls
    adapter = buffer_to_struct_adapter(cls)
    context = ReadOnlyContext({'int_repr_format': '0x%x', 'mode': 1})
    bits = bufmodel.static_bits(spec)
    size = None
    if cls.byte_size is not None:
        size = -int(-cls.byte_size // 1)
        obs.hit('fixed')
        if cls.byte_size != size:
            obs.hit('fractional')
        if spec.get('byte_size') is not None:
            obs.hit('declared')
        elif bits is not None:
            obs.equal(size, (bits + 7) // 8, 'size', "bytes of %r", spec)
    else:
        obs.hit('varying')

    good = []                                    # (values, image, values read back)
    for values in case['values']:
        data, stored, err = bufcheck.model_encode(spec, values)
        if err is not None:
            continue
        want, used, err = bufcheck.model_decode(spec, data)
        if err is None:
            good.append((values, data, want))

    for values, data, want in good:
        obj = real.make(values)
        twin = real.make(values)
        others = [x for x in good if set(x[0]) == set(values)]
        other = rng.choice(others) if others else None
        obs.hit('alone')
        obs.equal(bytes(adapter.write_to_string(obj)), data, 'written', "%r of %r", values, spec)
        out = io.BytesIO()
        out.write(b'head')
        if rng.random() < 0.5:
            obs.hit('contexts')
            adapter.write_to_stream(obj, out, context)
        else:
            adapter.write_to_stream(obj, out)
        obs.equal(out.getvalue(), b'head' + data, 'written', "%r of %r to a stream", values, spec)
        obs.equal(adapter.sizeof(obj), len(data), 'sizeof', "%r of %r", values, spec)
        if other is not None:
            # The same object with other values.
            obs.equal(adapter.sizeof(twin), len(data), 'sizeof', "%r of %r", values, spec)
            for f in bufmodel.all_fields(spec):
                if f['name'] in other[0] and f.get('sbp') is None:
                    setattr(twin, f['name'], getattr(real.make(other[0]), f['name']))
            obs.hit('sizes_after_changes')
            obs.equal(adapter.sizeof(twin), len(other[1]), 'sizeof', "%r of %r, after other values were assigned", other[0], spec)
            twin = real.make(values)
        twin.pack()
        obs.expect(same(real.plain(obj), real.plain(twin)), 'changed', "%r changed to %r", values, real.plain(obj))
        obs.equal(adapter.to_repr(obj), repr(obj), 'repr', "%r", values)
        obs.equal(adapter.to_repr(obj, context), repr(obj), 'repr', "%r", values)
        for source in (data, bytes(data)):
            x = adapter.create_from_string(source)
            obs.expect(type(x) is cls and same(real.plain(x), want), 'read', "%r gives %r instead of %r", data, x, want)
        for wrong in (u'text', None, 5):
            obs.expect(isinstance(attempt(adapter.create_from_string, wrong)[1], TypeError), 'type', "%r is accepted", wrong)
        if size is None:
            s = Source(data)
            got, err = attempt(adapter.create_from_stream, s)
            obs.hit('refused_streams')
            obs.expect(isinstance(err, ValueError) and not s.asked, 'unknown-size', "a class without a fixed size is read from a stream: %r %r", got, err)
            continue
        obs.equal(len(data), size, 'size', "bytes written of %r", spec)
        s = Source(data + b'\xff\x00more')
        x = adapter.create_from_stream(s, *([context] if rng.random() < 0.5 else []))
        obs.hit('stream_reads')
        obs.expect(type(x) is cls and same(real.plain(x), want), 'read', "%r gives %r instead of %r from a stream", data, x, want)
        obs.equal([s.pos, s.asked], [size, size], 'consumed', "bytes taken and asked for of %d", size)
        for n in set(rng.randint(0, size) for _ in range(3)) - set([size]):
            _, _, err = bufcheck.model_decode(spec, data[:n])
            if isinstance(err, bufmodel.ModelError):
                got, e = attempt(adapter.create_from_stream, Source(data[:n]))
                obs.hit('truncated')
                obs.expect(e is not None, 'truncated', "%d of %d bytes are read as %r, class %r", n, size, got, spec)

        class Bad(object):
            def read(self, n):
                raise Broken()

            def write(self, data):
                raise Broken()
        obs.expect(isinstance(attempt(adapter.create_from_stream, Bad())[1], Broken), 'stream', "a failing stream")
        obs.expect(isinstance(attempt(adapter.write_to_stream, obj, Bad())[1], Broken), 'stream', "a failing stream")

    if case['bad'] and good:
        values = dict(copying.deepcopy(good[0][0]))
        values[case['bad']] = 1 << 200
        if isinstance(bufcheck.model_encode(spec, values)[2], bufmodel.ModelError):
            obj = real.make(values)
            out = io.BytesIO()
            e1, e2 = attempt(adapter.write_to_string, obj)[1], attempt(adapter.write_to_stream, obj, out)[1]
            obs.hit('failed_packs')
            obs.expect(type(e1).__name__ == 'InstructBufferError' and type(e2) is type(e1) and not out.getvalue(), 'bad-value',
                       "%r is written with %r, %r, %r", values, e1, e2, out.getvalue())

    if size is not None and good:
        in_structs(case, rng, obs, I, real, adapter, good, size)


def in_structs(case, rng, obs, I, real, adapter, good, size):
    cls = real.cls

    class S(I.Struct):
        _fields_ = [I.UBInt8('before'), I.Field('x', adapter), I.UBInt16('between'),
                    I.VarSizeArray('many', I.UBInt8, adapter), I.OptionalField('maybe', adapter, lambda obj, stream, context: obj.before & 1),
                    I.FixedSizeArray('two', 2, adapter), I.UBInt8('after')]

    def record():
        parts = [rng.choice(good) for _ in range(7)]
        n = rng.randint(0, 3)
        before, between, after = rng.randrange(256), rng.randrange(65536), rng.randrange(256)
        make = lambda p: real.make(p[0])
        obj = S(before=before, x=make(parts[0]), between=between, many=[make(p) for p in parts[1:1 + n]],
                maybe=make(parts[4]) if before & 1 else None, two=[make(p) for p in parts[5:7]], after=after)
        image = bytes(bytearray([before])) + parts[0][1] + bytes(bytearray([between >> 8, between & 255, n])) + b''.join(
            p[1] for p in parts[1:1 + n]) + (parts[4][1] if before & 1 else b'') + parts[5][1] + parts[6][1] + bytes(bytearray([after]))
        want = [before, parts[0][2], between, [p[2] for p in parts[1:1 + n]], parts[4][2] if before & 1 else None,
                [p[2] for p in parts[5:7]], after]
        obs.hit('array_elements', n + 2)
        obs.hit('optional_present' if before & 1 else 'optional_absent')
        return obj, image, want

    def seen(x):
        for y in [x.x] + x.many + x.two + ([x.maybe] if x.maybe is not None else []):
            obs.expect(type(y) is cls, 'type', "%r", y)
        plain = real.plain
        return [x.before, plain(x.x), x.between, [plain(y) for y in x.many], None if x.maybe is None else plain(x.maybe),
                [plain(y) for y in x.two], x.after]

    records = [record() for _ in range(rng.randint(1, 3))]
    for obj, image, want in records:
        obs.hit('fields')
        obs.equal(S.write_to_string(obj), image, 'struct-written', "a struct with buffers of %r", case['spec'])
        obs.equal(S.sizeof(obj), len(image), 'struct-size', "size of a struct with buffers of %r", case['spec'])
        obs.expect(repr(obj.x) in repr(obj), 'repr', "%r", obj)
        obs.expect(same(seen(S.create_from_string(image)), want), 'struct-read', "%r gives %r instead of %r", image,
                   S.create_from_string(image), want)
        empty = attempt(S.write_to_string, S(before=1, between=2, many=[], two=[], after=0))
        obs.expect(empty[1] is not None, 'missing', "a missing buffer is written as %r", empty[0])
    s = Source(b''.join(r[1] for r in records) + b'end')
    for obj, image, want in records:
        x = S.create_from_stream(s)
        obs.expect(same(seen(x), want), 'sequence', "%r gives %r instead of %r, one of several", image, x, want)
        obs.hit('record_sequences')
    obs.equal(s.data[s.pos:], b'end', 'sequence', "what is left")
