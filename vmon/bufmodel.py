"""Reference model of declarative buffers, independent of the library's code.

A *spec* is plain data describing a buffer class. `build` turns it into a real class through the public API only;
`encode` / `decode` compute what the real class has to produce, bit by bit.

spec   = {'name', 'fields': [field...], 'base': spec|None, 'byte_size': int|None}
field  = {'name', 'kind': int|float|str|bytes|json|list|buf, 'w': rexpr  (or 'wp' + 'wu'), ...kind options...,
          'pif','uif': bexpr|None, 'sbp': derived|None, 'sau': derived|None, 'ua': [names]}
nexpr  = int | ['f', name] | ['self', name] | ['any', name] (of any kind) | ['after', name] | ['tot'] | ['len', name] | ['lens', name]
         | ['+'|'-'|'*'|'//', a, b] | ['min'|'max', a, b, ...] | ['neg', a] | ['ibl']
rexpr  = ['at', n] | ['sl', a|None, b|None] | ['ls', [at|sl...]] | ['sum', [rexpr...]] | ['bit', rexpr, sel]
sel    = int | ['s', i|None, j|None] | ['l', [sel...]]
bexpr  = bool | ['cmp', op, nexpr, nexpr] | ['f', name]
derived= ['ref', nexpr] | ['const', value] | ['fn', fname, args...]
"""
import copy
import json
import operator
import struct
import sys

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv,
       '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


class ModelError(Exception):
    """The library has to report an error here."""


class Unspecified(Exception):
    """The property says nothing about this input."""


# ---------------------------------------------------------------------------------------------------------------
# building real classes
# ---------------------------------------------------------------------------------------------------------------

class Trace(object):
    """Records the calls the library makes into user functions."""

    def __init__(self):
        self.calls = {}

    def call(self, key):
        self.calls[key] = self.calls.get(key, 0) + 1


def user_function(name, args):
    """Derived-value functions (they get the object)."""
    if name == 'sumlen':
        return lambda obj: sum(len(getattr(obj, a)) for a in args)
    if name == 'attr+1':
        return lambda obj: getattr(obj, args[0]) + 1
    if name == 'copy':
        return lambda obj: getattr(obj, args[0])
    if name == 'nothing':
        return lambda obj: None
    if name == 'crc':
        return lambda obj: sum(bytearray(repr(getattr(obj, args[0])).encode('ascii'))) % 251
    raise AssertionError(name)


def after_function(name, args):
    """set_after_unpack functions (they get the value that was read)."""
    if name == 'double':
        return lambda value: value * 2
    if name == 'wrap':
        return lambda value: [value]
    if name == 'none':
        return lambda value: None
    if name == 'less':
        return lambda value: value * 0
    raise AssertionError(name)


class Builder(object):
    def __init__(self, trace=None):
        self.trace = trace or Trace()
        self.classes = {}      # name -> (spec, class)
        self.shared_ranges = None
        self.shared = {}       # expressions that appear again are the same objects, in some of the classes

    def build(self, spec):
        from infi.instruct import buffer as B
        known = self.classes.get(spec['name'])
        if known is not None:
            assert known[0] is spec or known[0] == spec, "two specs named %s" % spec['name']
            return known[1]
        base = self.build(spec['base']) if spec.get('base') else B.Buffer
        refs = {}
        if spec.get('base'):
            for f in all_fields(spec['base']):
                refs[f['name']] = getattr(base, f['name'])
        attrs = {}
        outer, self.shared = self.shared, {}
        self.shared['on'] = sum(len(f['name']) for f in spec['fields']) % 2
        for f in spec['fields']:
            ref = self.field(f, refs, spec)
            refs[f['name']] = ref
            attrs[f['name']] = ref
        self.shared = outer
        attrs.update(spec.get('attrs') or {})
        if spec.get('byte_size') is not None:
            attrs['byte_size'] = spec['byte_size']
        cls = type(str(spec['name']), (base,), attrs)
        self.classes[spec['name']] = (spec, cls)
        return cls

    def once(self, what, e, refs, make):
        shared = self.shared
        if self.shared_ranges is not None and what == 'rng':
            shared = self.shared_ranges
        elif not shared.get('on'):
            return make(e, refs)
        key = (what, repr(e))
        if key not in shared:
            shared[key] = make(e, refs)
        return shared[key]

    def num(self, e, refs):
        if e is None or isinstance(e, (int, float)):
            return e
        return self.once('num', e, refs, self._num)

    def rng(self, e, refs):
        return self.once('rng', e, refs, self._rng)

    def _num(self, e, refs):
        from infi.instruct import buffer as B
        op = e[0]
        if op == 'f':
            return refs[e[1]]
        if op == 'any':
            return getattr(B.self_ref, e[1])
        if op == 'self':
            return B.num_ref(getattr(B.self_ref, e[1]))
        if op == 'after':
            return B.after_ref(refs[e[1]])
        if op == 'tot':
            return B.total_size
        if op == 'len':
            return B.len_ref(getattr(B.self_ref, e[1]))
        if op == 'lens':
            return B.len_ref(e[1])
        if op == 'ibl':
            return B.input_buffer_length
        if op == 'mf':
            return B.num_ref(B.member_func_ref(lambda obj, name=e[1]: getattr(obj, name)))
        if op == 'min':
            return B.min_ref(*[self.num(x, refs) for x in e[1:]])
        if op == 'max':
            return B.max_ref(*[self.num(x, refs) for x in e[1:]])
        if op == 'neg':
            return -self.num(e[1], refs)
        return OPS[op](self.num(e[1], refs), self.num(e[2], refs))

    def _rng(self, e, refs):
        from infi.instruct import buffer as B
        op = e[0]
        if op == 'bit':
            return self.rng(e[1], refs).bits[self.sel(e[2])]
        if op == 'sum':
            parts = [self.rng(x, refs) for x in e[1]]
            total = parts[0]
            for x in parts[1:]:
                total = total + x
            return total
        return B.bytes_ref[self.loc(e, refs)]

    def loc(self, e, refs):
        if e[0] == 'at':
            return self.num(e[1], refs)
        if e[0] == 'sl':
            return slice(self.num(e[1], refs), self.num(e[2], refs))
        return tuple(self.loc(x, refs) for x in e[1])

    def sel(self, s):
        if isinstance(s, int):
            return s
        if s[0] == 's':
            return slice(s[1], s[2])
        return tuple(self.sel(x) for x in s[1])

    def cond(self, e, refs):
        if isinstance(e, bool):
            return e
        if e[0] == 'f':
            return refs[e[1]]
        if e[0] == 'mf':
            return self.num(e, refs)
        return OPS[e[1]](self.num(e[2], refs), self.num(e[3], refs))

    def derived(self, d, refs, key, functions):
        if d[0] == 'ref':
            return self.num(d[1], refs)
        if d[0] == 'const':
            return copy.deepcopy(d[1])
        inner = functions(d[1], d[2:])

        def func(arg):
            self.trace.call(key)
            return inner(arg)
        return func

    def elem(self, el):
        from infi.instruct import buffer as B
        if el[0] == 'int':
            _, size, signed, endian = el
            prefix = {'native': '', 'big': 'b_', 'little': 'l_'}[endian]
            return getattr(B, prefix + ('' if signed else 'u') + 'int%d' % (size * 8))
        if el[0] == 'str':
            return B.str_type_factory(byte_size=el[1])
        return self.build(el[1])

    def selector(self, f, spec):
        sel = f['sel']
        table = dict((int(k), self.build(s)) for k, s in sel['map'])

        def select(obj, buffer, **kwargs):
            self.trace.call(('selector', spec['name'], f['name']))
            key = buffer[0] if sel['by'] == 'peek' else getattr(obj, sel['attr'])
            return table.get(key)
        return select

    def field(self, f, refs, spec):
        from infi.instruct import buffer as B
        kw = {}
        if 'w' in f:
            kw['where'] = self.rng(f['w'], refs)
        else:
            kw['where_when_pack'] = self.rng(f['wp'], refs)
            kw['where_when_unpack'] = self.rng(f['wu'], refs)
        if f.get('pif') is not None:
            kw['pack_if'] = self.cond(f['pif'], refs)
        if f.get('uif') is not None:
            kw['unpack_if'] = self.cond(f['uif'], refs)
        if f.get('sbp') is not None:
            kw['set_before_pack'] = self.derived(f['sbp'], refs, ('sbp', spec['name'], f['name']), user_function)
        if f.get('sau') is not None:
            kw['set_after_unpack'] = self.derived(f['sau'], refs, ('sau', spec['name'], f['name']), after_function)
        if f.get('ua'):
            kw['unpack_after'] = refs[f['ua'][0]] if len(f['ua']) == 1 and len(f['name']) % 2 else [refs[n] for n in f['ua']]
        if 'default' in f:
            kw['default'] = make_value(self, f, f['default']) if f['kind'] in ('buf', 'list') else f['default']
        kind = f['kind']
        if kind == 'int':
            if f.get('size'):
                kw['byte_size'] = f['size']
            signed, endian = f['signed'], f['endian']
            api = f.get('api', 0)
            if api == 0 or endian == 'native':
                if endian != 'native' or api == 2:
                    kw['endian'] = endian
                return (B.int_field if signed else B.uint_field)(**kw)
            if api == 1:
                kw.update(sign='signed' if signed else 'unsigned', endian=endian)
                return B.int_field(**kw)
            name = ('be_' if endian == 'big' else 'le_') + ('' if signed else 'u') + 'int_field'
            return getattr(B, name)(**kw)
        if kind == 'float':
            if f.get('size'):
                kw['byte_size'] = f['size']
            return B.float_field(endian=f['endian'], **kw)
        if kind == 'str':
            for k, name in (('enc', 'encoding'), ('pad', 'padding'), ('strip', 'strip'), ('just', 'justify')):
                if k in f:
                    kw[name] = f[k]
            return B.str_field(**kw)
        if kind == 'bytes':
            return B.bytearray_field(**kw)
        if kind == 'json':
            return B.json_field(**kw)
        if kind == 'buf':
            if f.get('sel'):
                kw['unpack_selector'] = self.selector(f, spec)
            elif len(f['name']) % 3 == 0 and (static_bits(f['spec']) or 1) % 8 == 0:
                kw['byte_size'] = static_bits(f['spec']) // 8           # which says nothing new
            return B.buffer_field(type=self.build(f['spec']), **kw)
        if kind == 'list':
            if f.get('n') is not None:
                kw['n'] = self.num(f['n'], refs)
            if f.get('sel'):
                kw['unpack_selector'] = self.selector(f, spec)
            return B.list_field(type=self.elem(f['elem']), **kw)
        raise AssertionError(kind)


def all_fields(spec):
    """Subclass fields first; a field hides the one it overrides."""
    seen, out = set(), []
    while spec:
        for f in sorted(spec['fields'], key=lambda f: f['name']):
            if f['name'] not in seen:
                seen.add(f['name'])
                out.append(f)
        spec = spec.get('base')
    return out


# ---------------------------------------------------------------------------------------------------------------
# bits
# ---------------------------------------------------------------------------------------------------------------

def bits_of_bytes(data):
    return [(b >> i) & 1 for b in bytearray(data) for i in range(8)]


def bytes_of_bits(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << (i & 7)
    return bytes(out)


def bits_of_int(n, width):
    return [(n >> i) & 1 for i in range(width)]


def int_of_bits(bits):
    return sum(b << i for i, b in enumerate(bits))


def amount(bits):
    """A number of bits, as the byte offset a user sees."""
    return bits // 8 if bits % 8 == 0 else bits / 8.0


def to_bits(n):
    if n is None:
        return None
    if isinstance(n, bool) or not isinstance(n, (int, float)):
        raise ModelError("position %r is not a number" % (n,))
    b = n * 8
    if b != int(b):
        raise Unspecified("a fraction of a bit")
    return int(b)


STRUCT_INTS = {8: 'b', 16: 'h', 32: 'i', 64: 'q'}
FLOATS = {32: 'f', 64: 'd'}


def order(endian):
    return {'big': '>', 'little': '<', 'native': '<' if sys.byteorder == 'little' else '>'}[endian]


def encode_int(value, width, signed, endian):
    if isinstance(value, bool) or not isinstance(value, int):
        raise ModelError("not an int")
    if width in STRUCT_INTS:
        lo, hi = (-(1 << width - 1), (1 << width - 1) - 1) if signed else (0, (1 << width) - 1)
        if not lo <= value <= hi:
            raise ModelError("%d does not fit %d bits" % (value, width))
        data = (value & ((1 << width) - 1)).to_bytes(width // 8, 'big' if order(endian) == '>' else 'little')
        return bits_of_bytes(data)
    if not 0 <= value < (1 << width):
        raise ModelError("%d does not fit %d bits" % (value, width))
    bits = bits_of_int(value, width)
    if width % 8 == 0 and order(endian) == '>':
        bits = bits_of_bytes(bytes_of_bits(bits)[::-1])
    return bits


def decode_int(bits, width, signed, endian):
    if len(bits) < width:
        raise ModelError("too short")
    bits = bits[:width]
    if width % 8 == 0 and order(endian) == '>':
        bits = bits_of_bytes(bytes_of_bits(bits)[::-1])
    value = int_of_bits(bits)
    if signed and width in STRUCT_INTS and value >= 1 << (width - 1):
        value -= 1 << width
    return value


def encode_float(value, size, endian):
    if isinstance(value, bool) or not isinstance(value, (int, float)):
        raise ModelError("not a number")
    try:
        return bits_of_bytes(struct.pack(order(endian) + FLOATS[size * 8], value))
    except (struct.error, OverflowError):
        raise ModelError("out of range")


def encode_text(raw, size, pad, just):
    if size is not None and len(raw) < size:
        if just == 'left':
            raw = raw + pad * (size - len(raw))
        elif just == 'right':
            raw = pad * (size - len(raw)) + raw
        else:
            raw = bytes(bytearray(raw).center(size, pad))
    return bits_of_bytes(raw)


def strip_text(raw, strip, pad, just):
    for chars in (strip, pad):
        if just in ('left', 'center'):
            raw = raw.rstrip(chars)
        if just in ('right', 'center'):
            raw = raw.lstrip(chars)
    return raw


def str_options(f):
    return f.get('enc', 'ascii'), f.get('pad', b' '), f.get('strip', b'\x00'), f.get('just', 'left')


# ---------------------------------------------------------------------------------------------------------------
# evaluation
# ---------------------------------------------------------------------------------------------------------------

def closed_ranges(ranges):
    return all(e is not None for _, e in ranges)


def range_length(ranges):
    return sum(e - s for s, e in ranges)


def overlapping(ranges):
    big = 1 << 62
    rs = [(s, big if e is None else e) for s, e in ranges if e is None or s != e]
    return any(max(a[0], b[0]) < min(a[1], b[1]) for i, a in enumerate(rs) for b in rs[i + 1:])


def select_bits(ranges, sel):
    """The ranges of r.bits[sel]: positions in the concatenation of r's ranges."""
    if isinstance(sel, int):
        return slice_bits(ranges, sel, sel + 1, need=True)
    if sel[0] == 's':
        return slice_bits(ranges, sel[1] or 0, sel[2])
    out = []
    for x in sel[1]:
        out += select_bits(ranges, x)
    return out


def slice_bits(ranges, i, j, need=False):
    out, pos = [], 0
    total = range_length(ranges) if closed_ranges(ranges) else None
    if j is None:
        j = total
    if total is not None and (j > total or i > total):
        raise ModelError("bits out of range")
    for s, e in ranges:
        stop = None if e is None else pos + (e - s)
        a = max(i, pos)
        if j is None:
            if stop is None or a < stop:
                out.append((s + a - pos, e))
        else:
            b = j if stop is None else min(j, stop)
            if a < b:
                out.append((s + a - pos, s + b - pos))
        if stop is None:
            break
        pos = stop
    return out


class Eval(object):
    """Shared by packing and unpacking."""

    def __init__(self, spec):
        self.spec = spec
        self.fields = all_fields(spec)
        self.by_name = dict((f['name'], f) for f in self.fields)
        self.memo = {}
        self.active = []

    def once(self, key, func, *args):
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            raise ModelError("cycle")
        self.active.append(key)
        try:
            result = self.memo[key] = func(*args)
        finally:
            self.active.pop()
        return result

    def num(self, e):
        if e is None or isinstance(e, (int, float)):
            return e
        op = e[0]
        if op in ('f', 'self', 'any'):
            if e[1] not in self.by_name:
                return (self.spec.get('attrs') or {})[e[1]]
            return self.value(e[1])
        if op == 'after':
            return amount(self.after(e[1]))
        if op == 'tot':
            return amount(self.total())
        if op in ('len', 'lens'):
            try:
                return len(self.value(e[1]))
            except TypeError:
                raise ModelError("no len")
        if op == 'ibl':
            return self.input_length()
        if op == 'mf':
            return self.attribute(e[1])
        args = [self.num(x) for x in e[1:]]
        if any(a is None for a in args):
            raise ModelError("arithmetic on None")
        try:
            if op == 'min':
                return min(args)
            if op == 'max':
                return max(args)
            if op == 'neg':
                return -args[0]
            return OPS[op](*args)
        except (TypeError, ZeroDivisionError):
            raise ModelError("arithmetic")

    def cond(self, e):
        if e is None:
            return True
        if isinstance(e, bool):
            return e
        if e[0] == 'f':
            return bool(self.value(e[1]))
        if e[0] == 'mf':
            return bool(self.attribute(e[1]))
        a, b = self.num(e[2]), self.num(e[3])
        try:
            return OPS[e[1]](a, b)
        except TypeError:
            raise ModelError("comparison")

    def ranges(self, e):
        op = e[0]
        if op == 'at':
            n = to_bits(self.num(e[1]))
            if n is None or n < 0:
                raise ModelError("negative position")
            return [(n, n + 8)]
        if op == 'sl':
            a, b = to_bits(self.num(e[1])) or 0, to_bits(self.num(e[2]))
            if a < 0 or (b is not None and b < a):
                raise ModelError("negative range")
            return [(a, b)]
        if op in ('ls', 'sum'):
            out = []
            for x in e[1]:
                out += self.ranges(x)
            return out
        return select_bits(self.ranges(e[1]), e[2])


def is_static(e):
    if isinstance(e, list):
        if e and e[0] in ('f', 'self', 'any', 'after', 'tot', 'len', 'lens', 'ibl', 'mf'):
            return False
        return all(is_static(x) for x in e)
    return True


def static_bits(spec):
    """The declared size of the class in bits, or None when it depends on the data."""
    if spec.get('byte_size') is not None:
        return int(spec['byte_size'] * 8)
    ev, stop = Eval(spec), 0
    for f in ev.fields:
        for key in ('w', 'wp', 'wu'):
            if key not in f:
                continue
            if not is_static(f[key]):
                return None
            ranges = ev.ranges(f[key])
            if not closed_ranges(ranges):
                return None
            if key != 'wu':
                stop = max([stop] + [e for _, e in ranges])
    return stop


class PackEval(Eval):
    def __init__(self, spec, values):
        super(PackEval, self).__init__(spec)
        self.values = dict(values)
        self.evaluations = {}

    def input_length(self):
        raise Unspecified("input length while packing")

    def attribute(self, name):
        return self.values.get(name)

    def value(self, name):
        return self.once(('v', name), self._value, self.by_name[name])

    def _value(self, f):
        d = f.get('sbp')
        if d is not None:
            if d[0] == 'ref':
                v = self.num(d[1])
            elif d[0] == 'const':
                v = copy.deepcopy(d[1])
            else:
                self.evaluations[f['name']] = self.evaluations.get(f['name'], 0) + 1
                try:
                    v = user_function(d[1], d[2:])(_Attrs(self.values))
                except (TypeError, AttributeError) as e:
                    raise ModelError("the function fails: %s" % e)
            self.values[f['name']] = v
            return v
        return self.values.get(f['name'])

    def where(self, f):
        return self.once(('w', f['name']), self._where, f)

    def _where(self, f):
        ranges = self.ranges(f['w'] if 'w' in f else f['wp'])
        if overlapping(ranges):
            raise ModelError("overlap")
        return ranges

    def position(self, name):
        return self.once(('p', name), self._position, self.by_name[name])

    def _position(self, f):
        ranges = self.where(f)
        if closed_ranges(ranges):
            return ranges
        left = len(self.payload(f['name'])) + 7 & ~7
        out = []
        for s, e in ranges:
            if e is None:
                if left < 0:
                    raise ModelError("value too short for its ranges")
                e = s + left
            elif left < 0:
                raise ModelError("value too short for its ranges")
            out.append((s, e))
            left -= e - s
        return out

    def after(self, name):
        return max([0] + [e for _, e in self.position(name)])

    def payload(self, name):
        return self.once(('b', name), self._payload_or_error, self.by_name[name])

    def _payload_or_error(self, f):
        try:
            return self._payload(f)
        except (TypeError, AttributeError, ValueError, KeyError) as e:
            raise ModelError("not a value for a %s field: %r" % (f['kind'], e))

    def _payload(self, f):
        ranges = self.where(f)
        size = range_length(ranges) if closed_ranges(ranges) else None
        v = self.value(f['name'])
        kind = f['kind']
        if v is None and kind == 'str':
            raise Unspecified("text None")
        if v is None and kind != 'json':
            raise ModelError("no value")
        if kind == 'int':
            width = int(f['size'] * 8) if f.get('size') else size
            if width is None:
                raise Unspecified("open int without a size")
            return encode_int(v, width, f['signed'], f['endian'])
        if kind == 'float':
            nbytes = f['size'] if f.get('size') else 4 if size is None else size // 8
            if nbytes not in (4, 8) or (size is not None and size % 8):
                raise ModelError("float size")
            return encode_float(v, nbytes, f['endian'])
        if kind in ('str', 'json'):
            if size is not None and size % 8:
                raise ModelError("text takes whole bytes")
            if kind == 'json':
                raw, pad, just = json.dumps(v).encode('ascii'), b' ', 'left'
            else:
                enc, pad, _, just = str_options(f)
                try:
                    raw = v.encode(enc)
                except UnicodeError:
                    raise ModelError("cannot be encoded")
            return encode_text(raw, None if size is None else size // 8, pad, just)
        if kind == 'bytes':
            if not isinstance(v, (bytes, bytearray)):
                raise ModelError("not bytes")
            return bits_of_bytes(v)
        if kind == 'buf':
            return bits_of_bytes(self.nested(f['spec'], v))
        out = []
        for x in v:
            out += self.element(f['elem'], x)
        return out

    def nested(self, spec, v):
        # A selector may have chosen another class: the value then says which ('$spec').
        if '$spec' in v:
            spec, v = v['$spec'], v['$values']
        data, stored = encode(spec, v)
        v.update(stored)
        return data

    def element(self, el, x):
        if el[0] == 'int':
            return encode_int(x, el[1] * 8, el[2], el[3])
        if el[0] == 'str':
            return encode_text(x.encode('ascii'), el[1], b' ', 'left')
        return bits_of_bytes(self.nested(el[1], x))

    def is_packed(self, f):
        return self.cond(f.get('pif'))

    def total(self):
        return self.once(('tot',), self._total)

    def _total(self):
        static = static_bits(self.spec)
        if static is not None:
            return static
        stops = [0]
        for f in self.fields:
            if self.is_packed(f):
                stops += [e for _, e in self.position(f['name'])]
        return max(stops)

    def failing(self):
        """Names of the fields which cannot be packed."""
        out = set()
        for f in self.fields:
            try:
                if self.is_packed(f):
                    bits = self.payload(f['name'])
                    if range_length(self.position(f['name'])) > (len(bits) + 7 & ~7):
                        raise ModelError("value shorter than its range")
            except ModelError:
                out.add(f['name'])
        return out

    def run(self):
        image, stop = {}, 0
        for f in self.fields:
            if not self.is_packed(f):
                continue
            bits = self.payload(f['name'])
            ranges = self.position(f['name'])
            if range_length(ranges) > (len(bits) + 7 & ~7):
                raise ModelError("value shorter than its range")
            if range_length(ranges) > len(bits):
                raise Unspecified("the range covers a part of the padding of a fractional value")
            k = 0
            for s, e in ranges:
                for p in range(s, e):
                    if p in image:
                        raise Unspecified("overlapping fields")
                    image[p] = bits[k]
                    k += 1
                stop = max(stop, e)
        length = (stop + 7) // 8
        static = static_bits(self.spec)
        if static:
            declared = (static + 7) // 8
            if length > declared:
                raise ModelError("larger than declared")
            length = declared
        out = bytearray(length)
        for p, b in image.items():
            out[p >> 3] |= b << (p & 7)
        self.image = image
        return bytes(out)


class _Attrs(object):
    def __init__(self, d):
        self.__dict__ = d


def encode(spec, values):
    """-> (bytes, values after packing: derived fields are stored)."""
    ev = PackEval(spec, values)
    data = ev.run()
    return data, ev.values


class UnpackEval(Eval):
    def __init__(self, spec, bits):
        super(UnpackEval, self).__init__(spec)
        self.bits = bits
        self.out = {}

    def input_length(self):
        return (len(self.bits) + 7) // 8

    def where(self, f):
        e = f['w'] if 'w' in f else f['wu']
        if not is_static(e):
            self.others_first(f)
        ranges = self.ranges(e)
        if overlapping(ranges):
            raise ModelError("overlap")
        return ranges

    def others_first(self, f):
        """What a field that is unpacked after others waits for."""
        for n in f.get('ua') or ():
            if self.applies(self.by_name[n]):
                self.value(n)

    def applies(self, f):
        if f.get('ua') and not is_static(f.get('uif')):
            return self.once(('if', f['name']), self._applies, f)
        return self.cond(f.get('uif'))

    def _applies(self, f):
        self.others_first(f)
        return self.cond(f.get('uif'))

    def position(self, name):
        return self.once(('p', name), self._position, self.by_name[name])

    def _position(self, f):
        ranges = self.where(f)
        if closed_ranges(ranges):
            return ranges
        stop = self.input_length() * 8
        if any(s > stop for s, _ in ranges):
            raise ModelError("input ends before the field")
        return [(s, stop if e is None else e) for s, e in ranges]

    def after(self, name):
        f = self.by_name[name]
        ranges = self.where(f)
        if closed_ranges(ranges):
            return max([0] + [e for _, e in ranges])
        return self.reached(ranges, self.parsed(name)[1])

    def reached(self, ranges, left):
        """Where a field ends that took so many bits; an open range is begun even if nothing is left for it."""
        begun = max([0] + [s for s, e in ranges if e is None])
        for s, e in sorted(ranges, key=lambda r: r[0]):
            if e is None or e - s >= left:
                return max(s + left, begun)
            left -= e - s
        raise ModelError("offset outside the ranges")

    def attribute(self, name):
        return self.value(name) if self.applies(self.by_name[name]) else None

    def value(self, name):
        return self.once(('v', name), self._value, self.by_name[name])

    def _value(self, f):
        d = f.get('sau')
        if d is None:
            v = self.parsed(f['name'])[0]
        elif d[0] == 'ref':
            if not is_static(d[1]):
                self.others_first(f)
            v = self.num(d[1])
        else:
            v = after_function(d[1], d[2:])(self.parsed(f['name'])[0])
        self.out[f['name']] = v
        return v

    def parsed(self, name):
        return self.once(('u', name), self._parsed, self.by_name[name])

    def taken(self, ranges):
        """The bits of the ranges which the input holds."""
        out = []
        for s, e in ranges:
            out += self.bits[s:e]
        return out

    def _parsed(self, f):
        self.others_first(f)
        ranges = self.position(f['name'])
        bits = self.taken(ranges)
        size = range_length(ranges)
        short = len(bits) < size
        kind = f['kind']
        if kind == 'int':
            width = int(f['size'] * 8) if f.get('size') else size
            return decode_int(bits, width, f['signed'], f['endian']), width
        if kind == 'float':
            nbytes = f['size'] if f.get('size') else size // 8
            if nbytes not in (4, 8) or size % 8:
                raise ModelError("float size")
            if len(bits) < nbytes * 8:
                raise ModelError("too short")
            raw = bytes_of_bits(bits[:nbytes * 8])
            return struct.unpack(order(f['endian']) + FLOATS[nbytes * 8], raw)[0], nbytes * 8
        if kind in ('str', 'json'):
            if size % 8:
                raise ModelError("text takes whole bytes")
            if short:
                raise ModelError("too short")
            enc, pad, strip, just = str_options(f)
            raw = strip_text(bytes_of_bits(bits), strip, pad, just)
            try:
                text = raw.decode(enc)
                if kind == 'json':
                    text = json.loads(text.strip())
            except ValueError:
                raise ModelError("cannot be decoded")
            return text, size
        if kind == 'bytes':
            if short:
                raise Unspecified("bytes of a range the input does not cover")
            return bytearray(bytes_of_bits(bits)), (len(bits) + 7) // 8 * 8
        if kind == 'buf':
            if short:
                raise Unspecified("nested buffer in a short range")
            return self.nested(f, f['spec'], bits)
        if short:
            raise Unspecified("list in a short range")
        n = self.num(f['n']) if f.get('n') is not None else None
        out, pos = [], 0
        while pos < len(bits) and (n is None or len(out) < n):
            v, used = self.element(f, f['elem'], bits[pos:])
            if used == 0 and n is None:
                raise ModelError("a list without an end")
            out.append(v)
            pos += used
        return out, pos

    def element(self, f, el, bits):
        if el[0] == 'int':
            return decode_int(bits, el[1] * 8, el[2], el[3]), el[1] * 8
        if el[0] == 'str':
            if len(bits) < el[1] * 8:
                raise ModelError("too short")
            raw = strip_text(bytes_of_bits(bits[:el[1] * 8]), b'\x00', b' ', 'left')
            try:
                return raw.decode('ascii'), el[1] * 8
            except ValueError:
                raise ModelError("cannot be decoded")
        return self.nested(f, el[1], bits)

    def nested(self, f, spec, bits):
        chosen = None
        if f.get('sel'):
            sel = f['sel']
            if sel['by'] == 'peek':
                if not bits:
                    raise Unspecified("peeking into nothing")
                key = int_of_bits(bits[:8])
            else:
                key = self.value(sel['attr'])
            for k, s in sel['map']:
                if k == key:
                    chosen = s
            if chosen is None:
                return None, 0
            spec = chosen
        out, used = decode_bits(spec, bits)
        used = min((used + 7) & ~7, max(used, (len(bits) + 7) & ~7))
        if chosen is not None:
            out = {'$spec': spec, '$values': out}
        return out, used

    def run(self):
        self.failing = set()
        for f in self.fields:
            try:
                if self.applies(f):
                    self.value(f['name'])
            except ModelError:
                self.failing.add(f['name'])
        if self.failing:
            raise ModelError("fields %s cannot be read" % sorted(self.failing))
        for f in self.fields:
            if not self.applies(f):
                self.out[f['name']] = None
        return self.out, self.total()

    def total(self):
        return self.once(('tot',), self._total)

    def _total(self):
        static = static_bits(self.spec)
        if static is not None:
            return static
        stop = 0
        for f in self.fields:
            if not self.applies(f):
                continue
            left = self.parsed(f['name'])[1]
            if left > range_length(self.position(f['name'])):
                raise Unspecified("consumed more than its ranges")
            end = self.reached(self.where(f), left)
            stop = max(stop, end)
        return stop


def decode_bits(spec, bits):
    """-> (values, number of bits consumed)"""
    return UnpackEval(spec, bits).run()


def decode(spec, data):
    values, used = decode_bits(spec, bits_of_bytes(data))
    return values, amount(used)


# ---------------------------------------------------------------------------------------------------------------
# real objects <-> plain values
# ---------------------------------------------------------------------------------------------------------------

def make(builder, spec, values, how='kwargs'):
    """A real object holding `values` (derived fields left out)."""
    cls = builder.build(spec)
    real = {}
    for f in all_fields(spec):
        if f['name'] in values and f.get('sbp') is None:
            real[f['name']] = make_value(builder, f, values[f['name']])
    if how == 'kwargs':
        return cls(**real)
    obj = cls()
    for name in sorted(real, reverse=(how == 'reversed')):
        setattr(obj, name, real[name])
    return obj


def make_value(builder, f, v):
    if v is None:
        return None
    if f['kind'] == 'buf':
        return make_nested(builder, f['spec'], v)
    if f['kind'] == 'list':
        if f['elem'][0] == 'buf':
            return [make_nested(builder, f['elem'][1], x) for x in v]
        return list(v)
    if f['kind'] == 'bytes':
        return bytearray(v)
    return v


def make_nested(builder, spec, v):
    if '$spec' in v:
        return make(builder, v['$spec'], v['$values'])
    return make(builder, spec, v)


def plain(builder, spec, obj):
    """The values of a real object, as plain data."""
    if obj is None:
        return None
    out = {}
    for f in all_fields(spec):
        v = getattr(obj, f['name'])
        out[f['name']] = plain_value(builder, f, v)
    return out


def plain_value(builder, f, v):
    if v is None:
        return None
    if f['kind'] == 'buf' and hasattr(v, 'pack'):
        return plain_nested(builder, f, f['spec'], v)
    if f['kind'] == 'list' and isinstance(v, (list, tuple)):
        if f['elem'][0] == 'buf':
            return [plain_nested(builder, f, f['elem'][1], x) if hasattr(x, 'pack') else x for x in v]
        return list(v)
    if isinstance(v, (bytes, bytearray)):
        return bytearray(v)
    return v


def plain_nested(builder, f, spec, obj):
    if f.get('sel'):
        for _, s in f['sel']['map']:
            if type(obj) is builder.build(s):
                return {'$spec': s, '$values': plain(builder, s, obj)}
    if type(obj) is not builder.build(spec):
        return "object of unexpected class %s" % type(obj).__name__
    return plain(builder, spec, obj)


def expected_values(spec, values):
    """What reading back a packed object has to give: fields that are not read are None."""
    ev = PackEval(spec, values)
    ev.run()
    out = {}
    for f in ev.fields:
        v = ev.values.get(f['name'])
        if not ev.cond(f.get('uif')):
            out[f['name']] = None
        elif f['kind'] == 'buf':
            out[f['name']] = expected_nested(f['spec'], v)
        elif f['kind'] == 'list' and f['elem'][0] == 'buf':
            out[f['name']] = [expected_nested(f['elem'][1], x) for x in v]
        else:
            out[f['name']] = v
    return out


def expected_nested(spec, v):
    if '$spec' in v:
        return {'$spec': v['$spec'], '$values': expected_values(v['$spec'], v['$values'])}
    return expected_values(spec, v)
