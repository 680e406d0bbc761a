"""Structs take exactly their own bytes from a stream and report every stream problem."""
from vmon import structgen
from vmon import structmodel as M
from vmon.core import same

ID = 'S05'
RULE = ("random classes read back to back from, and written one after the other to, monitored streams (read()/write() only, with tell(), pipes, "
        "streams that fail at any call or return short reads), cut at every byte; every call is recorded and judged against the record boundaries "
        "of an independent decoder")
CASES = {'quick': 3000, 'thorough': 250000}
REQUIRE = {'records': 15000, 'read_calls': 60000, 'write_calls': 20000, 'cut': 29000, 'injected_read_failures': 4000, 'injected_write_failures': 4000,
           'short_reads': 4000, 'pipes': 300, 'lazy_after': 300, 'with_arrays_of_sums': 60, 'with_selectors': 150, 'long': 40, 'powers_of_two': 15, 'recovered': 8000}


class Broken(Exception):
    pass


class Input(object):
    """Has nothing but read(). limit: the end of the record that is being read."""

    def __init__(self, data, fail_at=None, rng=None):
        self.data = data
        self.pos = 0
        self.calls = 0
        self.limit = None
        self.over = None
        self.fail_at = fail_at
        self.rng = rng
        self.shortened = False

    def read(self, n):
        self.calls += 1
        if self.calls - 1 == self.fail_at:
            raise Broken()
        if not isinstance(n, int) or n < 0:
            raise AssertionError("read(%r)" % (n,))
        if self.limit is not None and self.pos + n > self.limit:
            self.over = (self.pos, n, self.limit)
        if self.rng is not None and n > 1 and self.rng.random() < 0.3:
            n = self.rng.randint(0 if self.rng.random() < 0.3 else 1, n - 1)
            self.shortened = True
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out


class Telling(Input):
    def tell(self):
        return self.pos + 1000


class NoTell(Input):
    """Like a pipe: the method is there, but cannot be used."""

    def tell(self):
        raise IOError("not seekable")

    def seek(self, *args):
        raise IOError("not seekable")

    def seekable(self):
        return False


class Output(object):
    def __init__(self, fail_at=None):
        self.parts = []
        self.fail_at = fail_at

    def write(self, data):
        if len(self.parts) == self.fail_at:
            raise Broken()
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise AssertionError("write(%r)" % (data,))
        self.parts.append(bytes(data))
        return len(data)


LENGTHS = [n + d for n in (64, 128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072) for d in (-1, 0, 0, 1)]


def long_case(rng):
    """Strings, buffers, arrays and paddings as long as what a library may read or write at once, with something behind them."""
    n = rng.choice(LENGTHS)
    number = ['num', rng.choice(('UBInt32', 'ULInt32', 'UBInt64', 'SBInt32') if n > 65535 else ('UBInt16', 'ULInt16', 'UBInt32'))]
    kind = rng.choice(('vstr', 'vstr', 'vbuf', 'vbuf', 'pstr', 'fbuf', 'varr', 'sarr', 'farr', 'pad'))
    pad, side = rng.choice(((b'\0', 'right'), (b' ', 'left'), (b'', 'none'), (b'\0', 'none')))
    text = bytes(bytearray(rng.getrandbits(8) | 1 for _ in range(32))) * (n // 32 + 1)
    text = text[:n]
    lead = {'k': 'f', 'name': 'lead', 'm': ['num', 'UBInt8']}
    after = {'k': 'f', 'name': 'after', 'm': ['num', rng.choice(('UBInt8', 'ULInt32'))]}
    if kind == 'pad':
        body, value = {'k': 'pad', 'size': n, 'char': b'\0'}, None
    else:
        if kind in ('vstr', 'pstr'):
            m = [kind, number if kind == 'vstr' else n, pad or b'\0', side]
            value = text
        elif kind in ('vbuf', 'fbuf'):
            m, value = [kind, number if kind == 'vbuf' else n], text
        else:
            n = min(n, 8192)
            item = rng.choice(('UBInt8', 'UBInt16'))
            m = [kind, number if kind != 'farr' else n, ['num', item]]
            if kind == 'sarr' and item == 'UBInt16':
                n = n // 2
            value = list(bytearray(text[:n]))
        body = {'k': 'f', 'name': 'body', 'm': m}
    spec = {'name': 'Long', 'fields': [lead, body, after]}
    values = [dict({'lead': rng.randint(0, 255), 'after': rng.randint(0, 255)}, **({'body': value} if value is not None else {})) for _ in range(2)]
    return {'spec': spec, 'values': values, 'style': rng.getrandbits(20), 'seed': rng.getrandbits(32), 'long': n}


def generate(rng, tier):
    if rng.random() < 0.03:
        return long_case(rng)
    g = structgen.Gen(rng, size=rng.choice((2, 4, 6)), depth=rng.choice((0, 1, 2, 3)), weights={'sarr': 2, 'sel': 2, 'fsel': 1.5, 'vstr': 1.5})
    spec = g.spec()
    return {'spec': spec, 'values': [g.values(spec) for _ in range(3)], 'style': rng.getrandbits(20), 'seed': rng.getrandbits(32)}


def has(spec, op):
    return "['%s'," % op in repr(spec)


def lazy_names(spec):
    return [x['name'] for f in spec['fields'] if f['k'] == 'lazy' for x in M.flat(f['fields']) if 'name' in x]


def check(case, obs):
    import io
    import random
    spec, rng = case['spec'], random.Random(case['seed'])
    b = M.Builder(case['style'])
    cls = b.build(spec)
    obs.hit('with_arrays_of_sums', has(spec, 'sarr'))
    obs.hit('long', 'long' in case)
    obs.hit('powers_of_two', 'long' in case and not case['long'] & case['long'] - 1)
    obs.hit('with_selectors', has(spec, 'sel') or has(spec, 'fsel'))
    objects = [b.make(spec, v) for v in case['values']]
    wires = [M.encode(spec, v) for v in case['values']]
    normals = [M.normal(spec, v) for v in case['values']]
    # another way to write the same values: variable strings that still hold what is stripped from them
    data = b''.join(wires)

    # back to back
    for kind in (Input, Telling, NoTell):
        s = kind(data + b'rest')
        at = 0
        for wire, want in zip(wires, normals):
            at += len(wire)
            s.limit = at
            obj = cls.create_from_stream(s)
            obs.expect(s.over is None, 'over-read', "reading a record of %r asks for %r", spec, s.over)
            obs.equal(s.pos, at, 'consumed', "reading %r of %r from a %s", wire, spec, kind.__name__)
            calls = s.calls
            obs.equal(b.plain(spec, obj), want, 'read', "%r of %r from a %s", wire, spec, kind.__name__)
            repr(obj), cls.write_to_string(obj)
            obs.equal([s.pos, s.calls], [at, calls], 'late-read', "using an object of %r reads from its stream", spec)
            obs.hit('records')
            if lazy_names(spec):
                obs.hit('lazy_after')
        obs.hit('read_calls', s.calls)
    total_calls = s.calls

    # what is in the stream may be written differently from what the library writes
    for _ in range(2):
        hostile = structgen.mutate(rng, data)
        r = M.Reader(hostile)
        s = rng.choice((Input, Telling, NoTell))(hostile)
        for i in range(4):
            try:
                want = M.decode(spec, r)
            except M.ModelError:
                try:
                    got = cls.create_from_stream(s)
                    got = b.plain(spec, got)
                except Exception:
                    break
                obs.fail('accepts', "record %d of %r of %r is read as %r" % (i, hostile, spec, got))
            obj = cls.create_from_stream(s)
            obs.equal(s.pos, r.pos, 'consumed', "record %d of %r of %r", i, hostile, spec)
            obs.equal(b.plain(spec, obj), want, 'read', "record %d of %r of %r", i, hostile, spec)
            obs.hit('records')
            if not len(hostile) > r.pos:
                break

    # cut anywhere
    wire, want = wires[0], normals[0]
    for n in range(len(wire)) if len(wire) < 60 else sorted(rng.sample(range(len(wire)), 60 if len(wire) < 5000 else 3)):
        s = rng.choice((Input, Telling, NoTell))(wire[:n])
        try:
            obj = cls.create_from_stream(s)
        except Exception:
            obs.hit('cut')
        else:
            obs.fail('cut', "%d of the %d bytes of %r are read as a record: %r" % (n, len(wire), spec, b.plain(spec, obj)))
        try:
            cls.create_from_string(wire[:n])
        except Exception:
            pass
        else:
            obs.fail('cut', "%d of the %d bytes of %r are read as a record from a string" % (n, len(wire), spec))
    obs.equal(b.plain(spec, cls.create_from_string(wire)), want, 'after', "%r after truncated input", spec)
    obs.equal(b.plain(spec, cls.create_from_string(wire + b'tail')), want, 'tail', "%r with more data behind it", spec)
    obs.hit('recovered')

    # failing input
    for k in sorted(rng.sample(range(total_calls), min(total_calls, 4))):
        s = Input(data, fail_at=k)
        try:
            for _ in wires:
                cls.create_from_stream(s)
        except Broken:
            obs.hit('injected_read_failures')
        except Exception as e:
            # an error of its own is fine as well, as long as there is one
            obs.hit('translated_read_failures')
        else:
            obs.fail('swallowed', "%r is read although reading failed at call %d" % (spec, k))
        obs.equal(b.plain(spec, cls.create_from_stream(Input(wire))), want, 'after', "%r after a failing stream", spec)
        obs.hit('recovered')

    # short reads: the right values or an error, never wrong ones
    for _ in range(3):
        s = Input(data, rng=rng)
        for v in normals:
            try:
                got = b.plain(spec, cls.create_from_stream(s))
            except Exception:
                break
            if not same(got, v):
                obs.fail('short-read', "%r of %r from a stream that returns less than asked for is read as %r" % (v, spec, got))
        if s.shortened:
            obs.hit('short_reads')

    # a real pipe
    if rng.random() < 0.25 and len(data) < 60000:
        import os
        fds = os.pipe()
        os.write(fds[1], data)
        os.close(fds[1])
        with io.open(fds[0], 'rb', **({} if rng.random() < 0.7 else {'buffering': 0})) as f:
            for v in normals:
                obs.equal(b.plain(spec, cls.create_from_stream(f)), v, 'pipe', "%r from a pipe", spec)
        obs.hit('pipes')

    # writing
    out = Output()
    for obj in objects:
        cls.write_to_stream(obj, out)
    obs.equal(b''.join(out.parts), data, 'write', "objects of %r written one after the other", spec)
    obs.hit('write_calls', len(out.parts))
    for k in sorted(rng.sample(range(len(out.parts)), min(len(out.parts), 4))):
        bad = Output(fail_at=k)
        try:
            for obj in objects:
                cls.write_to_stream(obj, bad)
        except Broken:
            obs.hit('injected_write_failures')
        except Exception as e:
            obs.hit('translated_write_failures')
        else:
            obs.fail('swallowed', "%r is written although writing failed at call %d" % (spec, k))
        obs.expect(data.startswith(b''.join(bad.parts)), 'write', "%r wrote %r before the failure", spec, bad.parts)
        obs.equal(cls.write_to_string(objects[-1]), wires[-1], 'after', "%r after a failing stream", spec)
        obs.hit('recovered')
