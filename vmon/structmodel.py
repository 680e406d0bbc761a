"""Independent reference for the stream-based Struct language: specs are plain data, evaluated without the library.

struct spec  {'name', 'fields': [...], 'ctx': {..} (optional)}
fields       {'k': 'f', 'name', 'm', 'default'?, 'small'?, 'force'?}     plain field
             {'k': 'const', 'name', 'm', 'value'}
             {'k': 'opt', 'name', 'm', 'pred', 'default'?}
             {'k': 'pad', 'size', 'char'}
             {'k': 'bits', 'fields': [{'k': 'bit'|'bflag', 'name', 'size', 'default'?} | {'k': 'bpad', 'size'} |
                                      {'k': 'bconst', 'name', 'size', 'value'}]}
             {'k': 'pos', 'fields': [{'name', 'slices': [[start, stop], ...], 'default'?}]}
             {'k': 'lazy', 'fields': [fields of fixed size]}
marshals     ['num', type] ['pstr', size, pad, dir] ['vstr', size marshal, pad, dir] ['fbuf', size] ['vbuf', size marshal]
             ['farr', n, m] ['varr', size marshal, m] ['sarr', size marshal, m] ['map', [[key, value]], m]
             ['struct', spec] ['sel', key marshal or ['ptr', name], [[key, spec]], default spec or None]
             ['fsel', how, [[key, spec]]]     how: ['peek', num type] or ['attr', name]
size marshal a 'num' or ['ptr', name]
values       a struct is {name: value}; a selected struct is [spec name, {name: value}]
"""
import struct
import sys

FORMATS = {}
for _o, _c in (('B', '>'), ('L', '<'), ('N', '=')):
    for _w, _f in ((8, 'b'), (16, 'h'), (32, 'l'), (64, 'q')):
        FORMATS['S%sInt%d' % (_o, _w)] = _c + _f
        FORMATS['U%sInt%d' % (_o, _w)] = _c + _f.upper()
    FORMATS['%sFloat32' % _o] = _c + 'f'
    FORMATS['%sFloat64' % _o] = _c + 'd'

RIGHT, LEFT, BOTH, NONE = 1, 2, 3, 0
DIRS = {'right': RIGHT, 'left': LEFT, 'both': BOTH, 'none': NONE}


class ModelError(Exception):
    """What the library has to reject. kind: the part of the contract that is broken."""

    def __init__(self, kind, text=''):
        super(ModelError, self).__init__("%s %s" % (kind, text))
        self.kind = kind


def bits_of(name):
    return int(name[-2:]) if name[-1] != '8' else 8


def is_float(name):
    return 'Float' in name


def limits(name):
    w = bits_of(name)
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if name[0] == 'S' else (0, (1 << w) - 1)


def encode_num(name, v):
    if v is None or isinstance(v, (bytes, str, list, dict)):
        raise ModelError('type')
    if is_float(name):
        try:
            return struct.pack(FORMATS[name], v)
        except (OverflowError, struct.error):
            raise ModelError('range')
    if isinstance(v, float):
        raise ModelError('type')
    low, high = limits(name)
    if not low <= v <= high:
        raise ModelError('range')
    return v.to_bytes(bits_of(name) // 8, order(name), signed=name[0] == 'S')


def order(name):
    c = name[1] if name[0] in 'SU' else name[0]
    return {'B': 'big', 'L': 'little', 'N': sys.byteorder}[c]


def decode_num(name, data):
    if is_float(name):
        return struct.unpack(FORMATS[name], data)[0]
    return int.from_bytes(data, order(name), signed=name[0] == 'S')


def strip(data, pad, dir):
    a, b = 0, len(data)
    chars = set(bytearray(pad))
    if dir in ('left', 'both'):
        while a < b and bytearray(data)[a] in chars:
            a += 1
    if dir in ('right', 'both'):
        while b > a and bytearray(data)[b - 1] in chars:
            b -= 1
    return data[a:b]


def padded(data, size, pad, dir):
    data = strip(data, pad, dir)
    if len(data) > size:
        raise ModelError('length', 'too long')
    if len(data) < size and dir == 'none':
        raise ModelError('length', 'too short')
    fill = pad[:1] * (size - len(data))
    return fill + data if dir == 'left' else data + fill


class Ctx(object):
    """What a marshal sees of its surroundings: the context's values and the values of the struct being processed."""

    def __init__(self, values, options):
        self.values = values
        self.options = options

    def enter(self, spec, values):
        options = dict(spec.get('ctx') or {})
        options.update(self.options)
        return Ctx(values, options)


TOP = Ctx(None, {})
TRACE = []         # (kind, ...) of every predicate and selector that decoding calls, in order


def predicate(p, ctx):
    if p[0] == 'ctx':
        return ctx.options.get(p[1]) == p[2]
    v = ctx.values.get(p[1])
    if p[0] == 'eq':
        return v == p[2]
    if p[0] == 'bit':
        return bool(v >> p[2] & 1)
    if p[0] == 'gt':
        return v > p[2]
    if p[0] == 'set':
        return v is not None
    raise AssertionError(p)


# -- encoding --------------------------------------------------------------------------------------

def encode(spec, values, ctx=TOP):
    ctx = ctx.enter(spec, values)
    return b''.join(encode_field(f, values, ctx) for f in spec['fields'])


def encode_field(f, values, ctx):
    k = f['k']
    if k == 'f':
        return encode_marshal(f['m'], values.get(f['name']), ctx)
    if k == 'const':
        return encode_marshal(f['m'], f['value'], ctx)
    if k == 'opt':
        v = values.get(f['name'])
        return b'' if v is None else encode_marshal(f['m'], v, ctx)
    if k == 'pad':
        return f['char'] * f['size']
    if k in ('bits', 'pos'):
        return encode_bits(f, values)
    if k == 'lazy':
        return b''.join(encode_field(x, values, ctx) for x in f['fields'])
    raise AssertionError(k)


def bit_layout(f):
    """[(field, [bit positions])], total bits"""
    out, at = [], 0
    if f['k'] == 'pos':
        for x in f['fields']:
            out.append((x, [i for a, b in x['slices'] for i in range(a, b)]))
            at = max([at] + [b for a, b in x['slices']])
    else:
        for x in f['fields']:
            out.append((x, list(range(at, at + x['size']))))
            at += x['size']
    return out, at


def encode_bits(f, values):
    layout, total = bit_layout(f)
    out = bytearray(total // 8)
    for x, where in layout:
        v = 0 if x.get('k') == 'bpad' else x['value'] if x.get('k') == 'bconst' else values.get(x['name'])
        if not isinstance(v, int):
            raise ModelError('type')
        for i, p in enumerate(where):
            out[p >> 3] |= (v >> i & 1) << (p & 7)
    return bytes(out)


def encode_size(m, n, ctx):
    return b'' if m[0] == 'ptr' else encode_marshal(m, n, ctx)


def encode_marshal(m, v, ctx):
    op = m[0]
    if op == 'num':
        return encode_num(m[1], v)
    if op == 'ptr':
        return b''
    if v is None:
        raise ModelError('unset')
    if op == 'pstr':
        return padded(v, m[1], m[2], m[3])
    if op == 'fbuf':
        return padded(v, m[1], b'', 'none')
    if op == 'vstr':
        v = strip(v, m[2], m[3])
        return encode_size(m[1], len(v), ctx) + v
    if op == 'vbuf':
        return encode_size(m[1], len(v), ctx) + v
    if op == 'farr':
        if len(v) != m[1]:
            raise ModelError('count')
        return b''.join(encode_marshal(m[2], x, ctx) for x in v)
    if op == 'varr':
        return encode_size(m[1], len(v), ctx) + b''.join(encode_marshal(m[2], x, ctx) for x in v)
    if op == 'sarr':
        data = b''.join(encode_marshal(m[2], x, ctx) for x in v)
        return encode_size(m[1], len(data), ctx) + data
    if op == 'map':
        for key, value in m[1]:
            if key == v:
                return encode_marshal(m[2], value, ctx)
        raise ModelError('mapping')
    if op == 'struct':
        return encode(m[1], v, ctx)
    if op in ('sel', 'fsel'):
        return encode(chosen(m, v[0]), v[1], ctx)
    raise AssertionError(op)


def choices(m):
    out = [s for _, s in m[2]]
    if m[0] == 'sel' and m[3] is not None:
        out.append(m[3])
    return out


def chosen(m, name):
    return [s for s in choices(m) if s['name'] == name][0]


# -- decoding --------------------------------------------------------------------------------------

class Reader(object):
    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos

    def take(self, n):
        if self.pos + n > len(self.data):
            raise ModelError('short')
        self.pos += n
        return self.data[self.pos - n:self.pos]


def decode(spec, r, ctx=TOP):
    values = {}
    ctx = ctx.enter(spec, values)
    for f in spec['fields']:
        decode_field(f, r, values, ctx)
    return values


def decode_field(f, r, values, ctx):
    k = f['k']
    if k == 'f':
        values[f['name']] = decode_marshal(f['m'], r, ctx)
    elif k == 'const':
        v = decode_marshal(f['m'], r, ctx)
        if encode_marshal(f['m'], v, ctx) != encode_marshal(f['m'], f['value'], ctx) if f['m'][0] == 'struct' else v != f['value']:
            raise ModelError('const')
        values[f['name']] = f['value']
    elif k == 'opt':
        TRACE.append(('pred', f['name']))
        values[f['name']] = decode_marshal(f['m'], r, ctx) if predicate(f['pred'], ctx) else None
    elif k == 'pad':
        r.take(f['size'])
    elif k in ('bits', 'pos'):
        layout, total = bit_layout(f)
        data = bytearray(r.take(total // 8))
        for x, where in layout:
            v = sum((data[p >> 3] >> (p & 7) & 1) << i for i, p in enumerate(where))
            if x.get('k') == 'bconst':
                if v != x['value']:
                    raise ModelError('const')
            if x.get('k') != 'bpad':
                values[x['name']] = v
    elif k == 'lazy':
        for x in f['fields']:
            decode_field(x, r, values, ctx)
    else:
        raise AssertionError(k)


def decode_size(m, r, ctx):
    n = ctx.values[m[1]] if m[0] == 'ptr' else decode_marshal(m, r, ctx)
    if n < 0:
        raise ModelError('negative')
    return n


def decode_marshal(m, r, ctx):
    op = m[0]
    if op == 'num':
        return decode_num(m[1], r.take(bits_of(m[1]) // 8))
    if op == 'ptr':
        return ctx.values[m[1]]
    if op == 'pstr':
        return strip(r.take(m[1]), m[2], m[3])
    if op == 'fbuf':
        return r.take(m[1])
    if op == 'vstr':
        return strip(r.take(decode_size(m[1], r, ctx)), m[2], m[3])
    if op == 'vbuf':
        return r.take(decode_size(m[1], r, ctx))
    if op in ('farr', 'varr'):
        n = m[1] if op == 'farr' else decode_size(m[1], r, ctx)
        out = []
        for _ in range(n):             # not a comprehension: those allocate room for n items beforehand
            out.append(decode_marshal(m[2], r, ctx))
        return out
    if op == 'sarr':
        n = decode_size(m[1], r, ctx)
        out = []
        while n > 0:
            before = r.pos
            out.append(decode_marshal(m[2], r, ctx))
            if r.pos == before:
                raise ModelError('endless')
            n -= r.pos - before
        if n:
            raise ModelError('sum')
        return out
    if op == 'map':
        v = decode_marshal(m[2], r, ctx)
        for key, value in m[1]:
            if value == v:
                return key
        raise ModelError('mapping')
    if op == 'struct':
        return decode(m[1], r, ctx)
    if op == 'sel':
        start = r.pos
        key = decode_marshal(m[1], r, ctx)
        ahead, r.pos = r.pos, start
        for k, s in m[2]:
            if k == key:
                break
        else:
            s = m[3]
        if s is None:
            raise ModelError('selector')
        v = decode(s, r, ctx)
        if r.pos < ahead:
            raise ModelError('leftover')
        return [s['name'], v]
    if op == 'fsel':
        start = ahead = r.pos
        if m[1][0] == 'peek':
            key = decode_marshal(['num', m[1][1]], r, ctx)
            ahead, r.pos = r.pos, start
        else:
            key = ctx.values[m[1][1]]
        TRACE.append(('select', key))
        for k, s in m[2]:
            if k == key:
                break
        else:
            raise ModelError('selector')
        v = decode(s, r, ctx)
        if r.pos < ahead:
            raise ModelError('leftover')
        return [s['name'], v]
    raise AssertionError(op)


# -- sizes -----------------------------------------------------------------------------------------

def clip(n):
    return min(n, sys.maxsize)


def bounds(spec):
    low = high = 0
    for f in spec['fields']:
        a, b = field_bounds(f)
        low, high = low + a, high + b
    return low, clip(high)


def field_bounds(f):
    k = f['k']
    if k in ('f', 'const'):
        return marshal_bounds(f['m'])
    if k == 'opt':
        return 0, marshal_bounds(f['m'])[1]
    if k == 'pad':
        return f['size'], f['size']
    if k in ('bits', 'pos'):
        n = bit_layout(f)[1] // 8
        return n, n
    out = [field_bounds(x) for x in f['fields']]
    return sum(a for a, b in out), sum(b for a, b in out)


def size_bounds(m):
    """(bytes of the length, largest length), exact for unsigned lengths."""
    if m[0] == 'ptr':
        return 0, sys.maxsize
    return bits_of(m[1]) // 8, limits(m[1])[1]


def marshal_bounds(m):
    op = m[0]
    if op == 'num':
        n = bits_of(m[1]) // 8
        return n, n
    if op == 'ptr':
        return 0, 0
    if op in ('pstr', 'fbuf'):
        return m[1], m[1]
    if op in ('vstr', 'vbuf', 'varr'):
        n, most = size_bounds(m[1])
        each = marshal_bounds(m[2])[1] if op == 'varr' else 1
        return n, clip(n + most * each)
    if op == 'sarr':
        n, most = size_bounds(m[1])
        return n, clip(n + most)
    if op == 'farr':
        a, b = marshal_bounds(m[2])
        return a * m[1], clip(b * m[1])
    if op == 'map':
        return marshal_bounds(m[2])
    if op == 'struct':
        return bounds(m[1])
    if op in ('sel', 'fsel'):
        all_ = [bounds(s) for s in choices(m)]
        return min(a for a, b in all_), max(b for a, b in all_)
    raise AssertionError(op)


def exact_bounds(spec):
    """Whether the library's bounds have to be the tight ones (it may overestimate signed lengths and sums of sizes)."""
    def m_exact(m):
        op = m[0]
        if op in ('vstr', 'vbuf', 'varr'):
            return (m[1][0] != 'num' or m[1][1][0] == 'U') and (op != 'varr' or m_exact(m[2]))
        if op == 'sarr':
            return False
        if op in ('farr', 'map'):
            return m_exact(m[2])
        if op == 'struct':
            return exact_bounds(m[1])
        if op == 'sel':
            return all(exact_bounds(s) for s in choices(m))
        return op != 'fsel'

    def f_exact(f):
        if f['k'] == 'lazy':
            return all(f_exact(x) for x in f['fields'])
        return 'm' not in f or m_exact(f['m'])
    return all(f_exact(f) for f in spec['fields'])


# -- text ------------------------------------------------------------------------------------------

def text(spec, values, ctx=TOP):
    """values may have a '#lazy': numbers of the lazy groups that are not decoded yet, and a '#spec': what it is really."""
    if values is None:
        return "<none>"
    spec = values.get('#spec', spec)
    ctx = ctx.enter(spec, values)
    hidden = values.get('#lazy', ())
    out = []
    for i, f in enumerate(spec['fields']):
        out += hidden_texts(f) if i in hidden else [field_text(f, values, ctx)]
    return "%s(%s)" % (spec['name'], ", ".join(out))


def hidden_texts(f):
    """What is shown of a lazy group before it is decoded."""
    for x in flat(f['fields']):
        if 'name' in x:
            yield '<lazy>'
        else:
            yield "<%d %s padding>" % (x['size'], 'bits' if x['k'] == 'bpad' else 'bytes')


def field_text(f, values, ctx):
    k = f['k']
    fmt = ctx.options.get('int_repr_format', '%d')
    if k == 'pad':
        return "<%d bytes padding>" % f['size']
    if k in ('f', 'opt'):
        v = values.get(f['name'])
        return "%s=%s" % (f['name'], '<not set>' if v is None else marshal_text(f['m'], v, ctx))
    if k == 'const':
        return "%s=%s (const)" % (f['name'], marshal_text(f['m'], f['value'], ctx))
    if k in ('bits', 'pos'):
        out = []
        for x in f['fields']:
            if x.get('k') == 'bpad':
                out.append("<%d bits padding>" % x['size'])
            elif x.get('k') == 'bconst':
                out.append("%s=%s (const)" % (x['name'], fmt % x['value']))
            else:
                v = values.get(x['name'])
                out.append("%s=%s" % (x['name'], '<not set>' if v is None else fmt % v))
        return ", ".join(out)
    return ", ".join(field_text(x, values, ctx) for x in f['fields'])


def marshal_text(m, v, ctx):
    op = m[0]
    if op == 'num':
        return ctx.options.get('float_repr_format', '%f') % v if is_float(m[1]) else ctx.options.get('int_repr_format', '%d') % v
    if op in ('farr', 'varr', 'sarr'):
        return "[ " + ", ".join(marshal_text(m[2], x, ctx) for x in v) + " ]"
    if op == 'struct':
        return text(m[1], v, ctx)
    if op in ('sel', 'fsel'):
        return text(chosen(m, v[0]), v[1], ctx)
    return repr(v)


# -- what comes back -------------------------------------------------------------------------------

def normal(spec, values):
    """The values that reading the written form of `values` gives."""
    out = {}
    for f in flat(spec['fields']):
        if 'name' not in f:
            continue
        if 'value' in f:
            out[f['name']] = f['value']
        elif 'm' in f:
            v = values.get(f['name'])
            out[f['name']] = None if v is None else normal_marshal(f['m'], v)
        else:
            n = f['size'] if 'size' in f else sum(b - a for a, b in f['slices'])
            out[f['name']] = values[f['name']] & ((1 << n) - 1)
    return out


def normal_marshal(m, v):
    op = m[0]
    if op in ('pstr', 'vstr'):
        return strip(v, m[2], m[3])
    if op in ('farr', 'varr', 'sarr'):
        return [normal_marshal(m[2], x) for x in v]
    if op == 'struct':
        return normal(m[1], v)
    if op in ('sel', 'fsel'):
        return [v[0], normal(chosen(m, v[0]), v[1])]
    return v


def flat(fields):
    for f in fields:
        if f['k'] in ('bits', 'pos', 'lazy'):
            for x in flat(f['fields']) if f['k'] == 'lazy' else f['fields']:
                yield x
        else:
            yield f


def everything(spec):
    """All fields of spec and of the structs in it."""
    def marshal(m):
        if m[0] == 'struct':
            return everything(m[1])
        if m[0] in ('sel', 'fsel'):
            return (f for s in choices(m) for f in everything(s))
        return marshal(m[2]) if m[0] in ('farr', 'varr', 'sarr') else ()

    for f in spec['fields']:
        for x in f['fields'] if f['k'] == 'lazy' else [f]:
            yield x
            if 'm' in x:
                for y in marshal(x['m']):
                    yield y


def named(spec):
    return [f for f in flat(spec['fields']) if 'name' in f]


# -- the real thing --------------------------------------------------------------------------------

class Builder(object):
    """Builds the library's classes from specs. `style` varies between the ways of writing the same declaration."""

    def __init__(self, style=0, bases=None, share=False):
        self.style = style
        self.share = share     # equal elements of an array are one object
        self.shared = 0
        self.classes = {}
        self.calls = []        # (kind, ...) of every predicate and selector call
        self.count = 0

    def pick(self, n):
        self.count += 1
        return (self.style // (self.count % 7 + 1)) % n if self.style else 0

    def build(self, spec, base=None, attrs=None):
        import infi.instruct as I
        if spec['name'] in self.classes:
            assert self.classes[spec['name']][0] == spec, spec['name']
            return self.classes[spec['name']][1]
        d = {'_fields_': [self.field(f) for f in spec['fields']]}
        if spec.get('ctx'):
            d['_context_'] = dict(spec['ctx'])
        d.update(attrs or {})
        cls = type(I.Struct)(str(spec['name']), (base or I.Struct,), d)
        self.classes[spec['name']] = (spec, cls)
        return cls

    def value_of(self, m, v):
        """The real object for the plain value v."""
        if v is None:
            return None
        op = m[0]
        if op in ('farr', 'varr', 'sarr'):
            out = []
            for i, x in enumerate(v):
                same = [j for j in range(i) if repr(v[j]) == repr(x)] if self.share and m[2][0] in ('struct', 'sel', 'fsel') else ()
                out.append(out[same[0]] if same else self.value_of(m[2], x))
                self.shared += bool(same)
            return (tuple if isinstance(v, tuple) else list)(out)
        if op == 'struct':
            return self.make(m[1], v)
        if op in ('sel', 'fsel'):
            return self.make(chosen(m, v[0]), v[1])
        return v

    def kwargs(self, spec, values):
        out = {}
        for f in named(spec):
            if 'value' not in f and f['name'] in values:
                v = values[f['name']]
                out[f['name']] = self.value_of(f['m'], v) if 'm' in f else v
        return out

    def make(self, spec, values, how=0):
        cls = self.build(spec)
        kw = self.kwargs(spec, values)
        if how == 0:
            return cls(**kw)
        obj = cls()
        for k, v in kw.items():
            setattr(obj, k, v)
        return obj

    def plain(self, spec, obj):
        out = {}
        for f in named(spec):
            v = getattr(obj, f['name'])
            out[f['name']] = self.plain_value(f['m'], v) if 'm' in f else v
        return out

    def plain_value(self, m, v):
        if v is None:
            return None
        op = m[0]
        if op in ('farr', 'varr', 'sarr'):
            return [self.plain_value(m[2], x) for x in v]
        if op == 'struct':
            import infi.instruct as I
            if not isinstance(v, I.Struct):
                raise TypeError("%s instead of a struct" % type(v))
            return self.plain(m[1], v)
        if op in ('sel', 'fsel'):
            for s in choices(m):
                if type(v) is self.build(s):
                    return [s['name'], self.plain(s, v)]
            return ['?', repr(type(v))]
        return v

    # fields

    def predicate(self, f):
        def check(obj, stream, context):
            self.calls.append(('pred', f['name'], obj))
            p = f['pred']
            if p[0] == 'ctx':
                return context.get(p[1], None) == p[2]
            v = getattr(obj, p[1])
            return {'eq': lambda: v == p[2], 'bit': lambda: bool(v >> p[2] & 1), 'gt': lambda: v > p[2],
                    'set': lambda: v is not None}[p[0]]()
        return check

    def field(self, f):
        import infi.instruct as I
        k = f['k']
        default = {'default': self.value_of(f['m'], f['default']) if 'm' in f else f['default']} if 'default' in f else {}
        if k == 'f':
            return self.plain_field(f['name'], f['m'], default)
        if k == 'const':
            if f['m'][0] == 'struct':
                return I.ConstField(f['name'], self.make(f['m'][1], f['value']))
            return I.ConstField(f['name'], self.value_of(f['m'], f['value']), self.marshal(f['m']))
        if k == 'opt':
            return I.OptionalField(f['name'], self.marshal(f['m']), self.predicate(f), **default)
        if k == 'pad':
            return (I.Padding if self.pick(2) else I.BytePadding)(f['size'], *([f['char']] if f['char'] != b'\0' else []))
        if k == 'bits':
            return I.BitFields(*[self.bit(x) for x in f['fields']])
        if k == 'pos':
            return I.BitFields(*[I.BitField(x['name'], self.slices(x['slices']), **({'default': x['default']} if 'default' in x
                                                                                   else {})) for x in f['fields']])
        return I.Lazy(*[self.field(x) for x in f['fields']])

    def slices(self, s):
        import infi.instruct as I
        if len(s) == 1:
            return [slice(*s[0]), I.Bits[s[0][0]:s[0][1]], (slice(*s[0]),)][self.pick(3)]
        return [I.Bits[tuple(slice(a, b) for a, b in s)], [slice(a, b) for a, b in s], tuple(slice(a, b) for a, b in s)][self.pick(3)]

    def bit(self, x):
        import infi.instruct as I
        default = {'default': x['default']} if 'default' in x else {}
        if x['k'] == 'bpad':
            return I.BitPadding(x['size'])
        if x['k'] == 'bconst':
            return I.ConstField(x['name'], x['value'], I.BitMarshal(x['size']))
        if x['k'] == 'bflag':
            return I.BitFlag(x['name'], **default)
        return I.BitField(x['name'], x['size'], **default)

    def plain_field(self, name, m, default):
        import infi.instruct as I
        if self.pick(2):
            return I.Field(name, self.marshal(m), **default)
        op = m[0]
        if op == 'num':
            return getattr(I, m[1])(name, **default)
        if op == 'pstr':
            return (I.FixedSizeString if self.pick(2) else I.PaddedString)(name, m[1], *self.padding(m), **default)
        if op == 'vstr':
            return I.VarSizeString(name, self.marshal(m[1]), *self.padding(m), **default)
        if op == 'fbuf':
            return I.FixedSizeBuffer(name, m[1], **default)
        if op == 'vbuf':
            return I.VarSizeBuffer(name, self.marshal(m[1]), **default)
        if op == 'farr':
            return I.FixedSizeArray(name, m[1], self.marshal(m[2]), **default)
        if op == 'varr':
            return I.VarSizeArray(name, self.marshal(m[1]), self.marshal(m[2]), **default)
        if op == 'sarr':
            return I.SumSizeArray(name, self.marshal(m[1]), self.marshal(m[2]), **default)
        if op == 'map':
            return I.MappingField(name, self.marshal(m[2]), dict((k, v) for k, v in m[1]), **default)
        if op == 'fsel' and not default:
            low, high = marshal_bounds(m)
            return I.SelectStructByFunc(name, self.selector(m), (low, high))
        return I.Field(name, self.marshal(m), **default)

    def padding(self, m):
        if m[2:] == [b'\0', 'right']:
            return []
        if m[3] == 'right':
            return [m[2]]
        return [m[2], DIRS[m[3]]]

    def selector(self, m):
        table = dict((k, self.build(s)) for k, s in m[2])
        how = m[1]

        def select(obj, stream, context):
            import infi.instruct as I
            if how[0] == 'peek':
                key = getattr(I, how[1]).create_from_stream(stream, context)
            else:
                key = getattr(obj, how[1])
            self.calls.append(('select', key, obj))
            return table[key]
        return select

    def marshal(self, m):
        import infi.instruct as I
        op = m[0]
        if op == 'num':
            return getattr(I, m[1]) if self.pick(2) == 0 else getattr(I, m[1] + 'Marshal')
        if op == 'ptr':
            return I.ReadPointer(m[1])
        if op == 'pstr':
            return I.PaddedStringMarshal(m[1], *self.padding(m))
        if op == 'vstr':
            return I.VarSizeStringMarshal(self.marshal(m[1]), *self.padding(m))
        if op == 'fbuf':
            return I.FixedSizeBufferMarshal(m[1])
        if op == 'vbuf':
            return I.VarSizeBufferMarshal(self.marshal(m[1]))
        if op == 'farr':
            return I.FixedSizeArrayMarshal(m[1], self.marshal(m[2]))
        if op == 'varr':
            return I.VarSizeArrayMarshal(self.marshal(m[1]), self.marshal(m[2]))
        if op == 'sarr':
            return I.SumSizeArrayMarshal(self.marshal(m[1]), self.marshal(m[2]))
        if op == 'map':
            return I.FixedSizeMappingMarshal(dict((k, v) for k, v in m[1]), self.marshal(m[2]))
        if op == 'struct':
            return self.build(m[1])
        if op == 'sel':
            return I.StructSelector(self.marshal(m[1]), dict((k, self.build(s)) for k, s in m[2]),
                                    *([self.build(m[3])] if m[3] is not None else []))
        low, high = marshal_bounds(m)
        from infi.instruct.struct.selector import FuncStructSelectorMarshal
        return FuncStructSelectorMarshal(I.StructFunc(self.selector(m)), (low, high))


def fixed_size(cls):
    """What the fields of a struct class say about having one size."""
    from infi.instruct.struct import FieldListContainer
    fields = cls._fields_
    return (fields if isinstance(fields, FieldListContainer) else FieldListContainer(fields)).is_fixed_size()
