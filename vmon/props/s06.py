"""Selected structs: the type that is read is the one that the key selects, and its bytes are read whole."""
import struct as pystruct

from vmon import structgen
from vmon import structmodel as M
from vmon.core import same

ID = 'S06'
RULE = ("classes with selectors by key and by function, single, in arrays, nested in one another, with and without defaults; every key of every "
        "table, keys that are not in it, keys longer than the selected struct, hostile input; function calls are recorded with the object they get; "
        "tables are changed after use")
CASES = {'quick': 4000, 'thorough': 300000}
REQUIRE = {'derived_in_base_fields': 400, 'key_elsewhere': 300, 'keys_selected': 1200, 'defaults_selected': 500, 'unknown_keys': 800, 'leftover': 300, 'calls': 1500, 'nested': 300, 'in_arrays': 150,
           'hostile_read': 1200, 'hostile_rejected': 3000, 'table_changed': 500, 'derived': 500, 'call_objects': 1500}


def generate(rng, tier):
    g = structgen.Gen(rng, size=rng.choice((1, 2, 4)), depth=rng.choice((1, 2, 3)),
                      weights={'sel': 12, 'fsel': 9, 'varr': 1.5, 'farr': 1.5, 'sarr': 2, 'struct': 2, 'num': 0.4, 'const': 0.3})
    if rng.random() < 0.35:
        return table_case(rng, g)
    spec = g.spec()
    case = {'what': 'spec', 'spec': spec, 'values': [g.values(spec) for _ in range(2)], 'style': rng.getrandbits(20), 'inputs': []}
    data = M.encode(spec, case['values'][0])
    for _ in range(4):
        case['inputs'].append(structgen.mutate(rng, data))
    return case


def table_case(rng, g):
    kind = rng.choice(('num', 'num', 'str', 'map', 'bytes', 'struct-size', 'attr', 'counted'))
    km = {'num': g.num, 'str': lambda: ['pstr', rng.choice((1, 2, 4, 6, 17)), b'\0', 'right'], 'map': g.mapping,
          'counted': lambda: rng.choice((['vstr', ['num', rng.choice(('UBInt8', 'UNInt16'))], b'\0', 'right'], ['vbuf', ['num', 'ULInt8']])),
          'bytes': lambda: ['fbuf', rng.choice((1, 2, 5, 12, 40))], 'struct-size': lambda: ['num', 'UBInt32'],
          'attr': lambda: ['num', rng.choice(structgen.INTS)]}[kind]()
    while km[0] == 'num' and M.is_float(km[1]):
        km = g.num()
    keys = g.keys(km, rng.randint(2, 6))
    if kind == 'counted' and b'' not in keys:
        keys[0] = b''
    table = []
    for k in keys:
        n = rng.random()
        if n < 0.25:
            # shorter than the key, or exactly as long
            spec = {'name': g.fresh(), 'fields': [{'k': 'f', 'name': 'raw', 'm': ['fbuf', rng.randint(0, M.marshal_bounds(km)[0])]}]}
        elif n < 0.4:
            # takes the key in pieces
            size, parts = M.marshal_bounds(km)[0] + rng.choice((0, 0, 1, 4)), []
            while size > 0 and len(parts) < 6:
                parts.append(rng.randint(0, size))
                size -= parts[-1]
            spec = {'name': g.fresh(), 'fields': [{'k': 'f', 'name': 'raw%d' % i, 'm': ['num', 'UBInt64'] if x == 8 else ['fbuf', x]}
                                                  for i, x in enumerate(parts + [size])]}
        elif n < 0.55:
            # overlays the key with fields of its own
            spec = g.spec(1, ctx=False, nonzero=True)
        else:
            spec = g.tagged(km, k, rng.choice((1, 1, 2)))
        table.append([k, spec])
    default = None
    if rng.random() < 0.5:
        default = {'name': g.fresh(), 'fields': [{'k': 'f', 'name': 'raw', 'm': ['fbuf', M.marshal_bounds(km)[0]]},
                                                 {'k': 'f', 'name': 'n', 'm': ['num', 'UBInt8']}]}
    others = [k for k in g.keys(km, 12) if k not in keys]
    rest = bytes(bytearray(rng.getrandbits(8) for _ in range(30)))
    return {'what': 'table', 'km': km, 'table': table, 'default': default, 'others': others, 'rest': rest, 'how': rng.choice(
        ('key', 'key', 'func')), 'style': rng.getrandbits(20)}


def count(spec, obs):
    text = repr(spec)
    n = text.count("['sel',") + text.count("['fsel',")
    obs.hit('key_elsewhere', text.count("['sel', ['ptr',"))
    if n > 1:
        obs.hit('nested')
    if any(("['%s'," % a) in text for a in ('varr', 'farr', 'sarr')) and n:
        obs.hit('in_arrays')


def check(case, obs):
    if case['what'] == 'table':
        return check_table(case, obs)
    spec = case['spec']
    b = M.Builder(case['style'])
    cls = b.build(spec)
    count(spec, obs)
    for values in case['values']:
        wire = M.encode(spec, values)
        obj = b.make(spec, values)
        obs.equal(cls.write_to_string(obj), wire, 'write', "%r of %r", values, spec)
        del b.calls[:]
        del M.TRACE[:]
        want = M.decode(spec, M.Reader(wire))
        back = cls.create_from_string(wire)
        obs.equal(b.plain(spec, back), want, 'read', "%r of %r", wire, spec)
        calls(obs, b, spec, wire, back)
    for data in case['inputs']:
        del b.calls[:]
        del M.TRACE[:]
        r = M.Reader(data)
        try:
            want = M.decode(spec, r)
        except M.ModelError as e:
            try:
                got = b.plain(spec, cls.create_from_string(data))
            except Exception:
                obs.hit('hostile_rejected')
                continue
            obs.fail('accepts', "%r of %r is read as %r, but %s" % (data, spec, got, e))
        got = cls.create_from_string(data)
        obs.equal(b.plain(spec, got), want, 'read', "%r of %r", data, spec)
        calls(obs, b, spec, data, got)
        obs.hit('hostile_read')


def structs_in(x, out):
    from infi.instruct import Struct
    if isinstance(x, Struct):
        out.append(x)
        for v in list(vars(x).values()):
            structs_in(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            structs_in(v, out)
    return out


def calls(obs, b, spec, data, obj):
    """Each function ran once per selection, in order, with the object that is being read."""
    got = [c[:2] for c in b.calls]
    want = [t for t in M.TRACE]
    obs.equal(sorted(map(repr, got)), sorted(map(repr, want)), 'calls', "functions called while %r of %r is read", data, spec)
    if 'lazy' not in repr(spec):
        obs.equal(got, want, 'calls', "order of the functions called while %r of %r is read", data, spec)
        known = [id(x) for x in structs_in(obj, [])]
        for c in b.calls if not any(f['k'] == 'const' and f['m'][0] == 'struct' for f in M.everything(spec)) else ():
            obs.expect(id(c[2]) in known, 'call-object', "a function of %r got %r, which is not part of the result", spec, c[2])
            obs.hit('call_objects')
    obs.hit('calls', len(got))


def check_table(case, obs):
    import infi.instruct as I
    from io import BytesIO
    km, how, rest = case['km'], case['how'], case['rest']
    b = M.Builder(case['style'])
    classes = dict((k, b.build(s)) for k, s in case['table'])
    default = b.build(case['default']) if case['default'] is not None and how == 'key' else None
    copy = dict(classes)
    seen = []
    if how == 'key':
        m = I.StructSelector(b.marshal(km), classes, *([default] if default is not None else []))
    else:
        reader = b.marshal(km)

        def choose(obj, stream, context):
            key = reader.create_from_stream(stream, context)
            seen.append((obj, key))
            return classes[key]
        m = I.SelectStructByFunc('x', choose).marshal

    class Holder(I.Struct):
        _fields_ = [I.UBInt8('before'), I.Field('x', m), I.UBInt8('after')]

    class Many(I.Struct):
        _fields_ = [I.VarSizeArray('x', I.UBInt8, m), I.UBInt8('after')]

    def expected(key):
        for k, s in case['table']:
            if k == key:
                return s
        return case['default'] if how == 'key' else None

    found = []
    for key in [k for k, s in case['table']] + case['others']:
        spec = expected(key)
        data = M.encode_marshal(km, key, M.TOP)
        try:
            values = None
            if spec is not None:
                r = M.Reader(data + rest)
                values = M.decode(spec, r)
                size = r.pos
                if size < len(data):
                    values = None
                    reason = 'leftover'
            else:
                reason = 'unknown_keys'
        except M.ModelError:
            reason = 'hostile_rejected'
        record = b'\x21' + data + rest + b'\x7e'
        del seen[:]
        if values is None:
            for marshal, text in ((Holder, record), (Many, b'\1' + record[1:])):
                try:
                    got = marshal.create_from_string(text)
                    if spec is not None:         # what is lazy is only checked when it is used
                        b.plain(spec, got.x if marshal is Holder else got.x[0])
                except I.InstructError:
                    obs.hit(reason)
                    continue
                except Exception:
                    obs.expect(reason != 'leftover' and not (reason == 'unknown_keys' and how == 'key'), 'error-type',
                               "key %r of %r is refused with an unrelated error", key, case['table'])
                    obs.hit(reason)
                    continue
                obs.fail('accepts', "key %r (%s) of %r reads %r as %r" % (key, reason, case['table'], record, got))
            continue
        record = b'\x21' + (data + rest)[:size] + b'\x7e'
        s = BytesIO(record + b'more')
        got = Holder.create_from_stream(s)
        obs.equal([got.before, got.after, s.tell()], [0x21, 0x7e, len(record)], 'around', "key %r of %r reading %r", key, case['table'], record)
        obs.expect(type(got.x) is b.build(spec), 'type', "key %r of %r selects %r", key, case['table'], type(got.x))
        obs.equal(b.plain(spec, got.x), values, 'read', "key %r of %r reading %r", key, case['table'], record)
        obs.hit('defaults_selected' if spec is case['default'] else 'keys_selected')
        if how == 'func':
            obs.equal([len(seen), seen[0][0] is got, seen[0][1]], [1, True, key], 'calls', "key %r of %r", key, case['table'])
        canonical = M.encode(spec, values)
        obs.equal(Holder.write_to_string(got), b'\x21' + canonical + b'\x7e', 'write', "key %r of %r", key, case['table'])
        obs.equal([Holder.sizeof(got), m.sizeof(got.x)], [len(canonical) + 2, len(canonical)], 'sizeof', "key %r of %r", key, case['table'])
        found.append((record[1:-1], spec, values, canonical))
        # an object of a derived class is written as what it is
        cls = b.build(spec)
        more = type(I.Struct)('More', (cls,), {'_fields_': list(cls._fields_) + [I.UBInt16('extra_')]})
        obj = more(extra_=0x102, **b.kwargs(spec, values))
        obs.equal(Holder.write_to_string(Holder(before=1, x=obj, after=2)), b'\1' + canonical + b'\1\2\2', 'derived', "%r", spec)
        obs.hit('derived')
        # ... in a field or array that is declared with the base class, too
        plain = type(I.Struct)('Plain', (I.Struct,), {'_fields_': [
            I.UBInt8('n'), I.Field('x', cls), I.FixedSizeArray('two', 2, cls), I.OptionalField('o', cls, lambda *a: False),
            I.SumSizeArray('s', I.UBInt16, cls)]})
        base = b.make(spec, values)
        holder = plain(n=3, x=obj, two=[base, obj], o=obj, s=[obj, base])
        want = canonical + b'\1\2'
        want = b'\3' + want + canonical + want + want + pystruct.pack('>H', len(want) + len(canonical)) + want + canonical
        obs.equal(plain.write_to_string(holder), want, 'derived', "%r in fields of its base class", spec)
        obs.equal([plain.sizeof(holder), cls.sizeof(obj), more.sizeof(obj), cls.sizeof(base)],
                  [len(want), len(canonical) + 2, len(canonical) + 2, len(canonical)], 'derived', "sizeof of %r in fields of its base class", spec)
        obs.equal([cls.write_to_string(obj), obj.to_bytes()], [canonical + b'\1\2'] * 2, 'derived', "%r written by its base class", spec)
        obs.hit('derived_in_base_fields')
    # several, one after the other
    if found:
        data = bytes(bytearray([len(found)])) + b''.join(f[0] for f in found) + b'\x7e'
        got = Many.create_from_string(data)
        obs.equal([b.plain(f[1], x) if type(x) is b.build(f[1]) else repr(type(x)) for f, x in zip(found, got.x)], [f[2] for f in found], 'read',
                  "several of %r reading %r", case['table'], data)
        obs.equal([len(got.x), got.after], [len(found), 0x7e], 'around', "several of %r reading %r", case['table'], data)
        obs.equal(Many.write_to_string(got), bytes(bytearray([len(found)])) + b''.join(f[3] for f in found) + b'\x7e', 'write', "several of %r",
                  case['table'])
    # the table belongs to the caller
    obs.expect(classes == copy, 'table', "the table given to a selector was changed: %r", classes)
    if how == 'key' and found:
        classes.clear()
        record, spec, values, _ = found[0]
        got = Holder.create_from_string(b'\x21' + record + b'\x7e')
        obs.equal(b.plain(spec, got.x) if type(got.x) is b.build(spec) else repr(got), values, 'table', "after the caller's table changed")
        obs.hit('table_changed')
