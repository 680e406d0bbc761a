"""A struct's written form is the declared sequence of fields and reads back as the same values."""
from vmon import structgen
from vmon import structmodel as M
from vmon.core import same

ID = 'S01'
RULE = ("random struct classes (every kind of field, nested to depth 3) with random values, written and read through strings and "
        "streams, plus hostile inputs: mutated, truncated and random bytes, all judged by an independent encoder and decoder")
CASES = {'quick': 5000, 'thorough': 400000}
REQUIRE = {'round_trips': 6000, 'hostile_inputs_read': 3000, 'rejected_short': 4000, 'rejected_const': 500, 'rejected_mapping': 300,
           'rejected_selector': 150, 'rejected_negative': 20, 'kind_bits': 800, 'kind_const': 800, 'kind_lazy': 400, 'kind_opt': 600,
           'kind_pad': 300, 'kind_pos': 300, 'marshal_farr': 250, 'marshal_fbuf': 300, 'marshal_fsel': 150, 'marshal_map': 500,
           'marshal_pstr': 900, 'marshal_sarr': 180, 'marshal_sel': 180, 'marshal_struct': 350, 'marshal_varr': 300,
           'marshal_vbuf': 300, 'marshal_vstr': 400, 'shared_elements': 70}


def generate(rng, tier):
    g = structgen.Gen(rng, size=rng.choice((2, 4, 7)), depth=rng.choice((0, 1, 2, 3)))
    spec = g.spec()
    case = {'spec': spec, 'values': [g.values(spec) for _ in range(2)], 'style': rng.getrandbits(20), 'inputs': []}
    data = M.encode(spec, case['values'][0])
    for _ in range(3):
        case['inputs'].append(structgen.mutate(rng, data))
    case['inputs'].append(bytes(bytearray(rng.getrandbits(8) for _ in range(len(data) + rng.randint(-2, 6)))) if len(data) > 2
                          else b'\1')
    return case


def kinds(spec, obs):
    for f in spec['fields']:
        obs.hit('kind_' + f['k'])
        for x in (f['fields'] if f['k'] == 'lazy' else [f]):
            if 'm' in x:
                marshal_kinds(x['m'], obs)


def marshal_kinds(m, obs):
    obs.hit('marshal_' + m[0])
    if m[0] == 'struct':
        kinds(m[1], obs)
    elif m[0] in ('sel', 'fsel'):
        for s in M.choices(m):
            kinds(s, obs)
    elif m[0] in ('farr', 'varr', 'sarr', 'map'):
        marshal_kinds(m[2], obs)


def check(case, obs):
    from io import BytesIO
    spec = case['spec']
    kinds(spec, obs)
    b = M.Builder(case['style'], share=True)
    cls = b.build(spec)
    for values in case['values']:
        want = M.encode(spec, values)
        obj = b.make(spec, values, case['style'] % 2)
        got = cls.write_to_string(obj)
        obs.equal(got, want, 'write', "%r of %r is written as", values, spec)
        obs.equal(obj.to_bytes(), want, 'write', "to_bytes()")
        s = BytesIO()
        s.write(b'before')
        cls.write_to_stream(obj, s)
        obs.equal(s.getvalue(), b'before' + want, 'write-stream', "written to a stream")
        back = cls.create_from_string(want)
        normal = M.normal(spec, values)
        obs.equal(b.plain(spec, back), normal, 'read', "%r of %r reads as", want, spec)
        obs.equal(M.decode(spec, M.Reader(want)), normal, 'harness', "the reference decoder reads %r", want)
        obs.equal(cls.write_to_string(back), M.encode(spec, normal), 'rewrite', "what was read from %r", want)
        obs.hit('round_trips')
        obs.hit('shared_elements', b.shared)
        b.shared = 0
    for data in case['inputs']:
        r = M.Reader(data)
        try:
            want = M.decode(spec, r)
        except M.ModelError as e:
            try:
                back = cls.create_from_string(data)
                b.plain(spec, back)
            except Exception:
                obs.hit('rejected_' + e.kind)
                continue
            obs.fail('accepts', "%r of %r is read as %r, but %s" % (data, spec, b.plain(spec, back), e))
        s = BytesIO(data)
        back = cls.create_from_stream(s)
        obs.expect(s.tell() == r.pos, 'consumed', "reading %r of %r took %d bytes instead of %d", data, spec, s.tell(), r.pos)
        obs.equal(b.plain(spec, back), want, 'read', "%r of %r reads as", data, spec)
        obs.hit('hostile_inputs_read')
