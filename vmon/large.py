"""Records of sizes and counts that random generation does not get to, checked against plain Python on bytes."""
import json
import random
import struct

SIZES = (255, 256, 257, 1023, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 70001)
SHORTER = tuple(n for n in SIZES if n < 20000)


def cases(sizes=SIZES):
    for n in sizes:
        yield {'large': n}


def record(size, obs):
    """A class whose fields follow one another, an object of it, what it has to pack to, and its values."""
    from infi.instruct import buffer as B

    class Large(B.Buffer):
        size = B.be_uint_field(where=B.bytes_ref[0:4], set_before_pack=B.len_ref(B.self_ref.raw))
        count = B.be_uint_field(where=B.bytes_ref[4:8], set_before_pack=B.len_ref(B.self_ref.items))
        raw = B.bytearray_field(where=B.bytes_ref[8:8 + size])
        items = B.list_field(where=B.bytes_ref[B.after_ref(raw):B.after_ref(raw) + count * 2], type=B.b_uint16, n=count)
        text = B.str_field(where=B.bytes_ref[B.after_ref(items):B.after_ref(items) + size])
        right = B.str_field(where=B.bytes_ref[B.after_ref(text):B.after_ref(text) + size], justify='right', encoding='latin-1')
        tree = B.json_field(where=B.bytes_ref[B.after_ref(right):])
    rng = random.Random(size)
    count = min(size // 3, 1500)
    values = {'raw': bytearray(rng.getrandbits(8) for _ in range(size)),
              'items': [rng.getrandbits(16) for _ in range(count)],
              'text': ''.join(rng.choice('abc d') for _ in range(size // 2)) + '.',
              'right': ':' + ''.join(rng.choice(u'ab\xe9 ') for _ in range(size - 2)),
              'tree': {'long': 'x' * size, 'list': list(range(size // 8)), 'end': [[], {}, None, True, 0.5]}}
    want = struct.pack('>II', size, count) + bytes(values['raw']) + b''.join(struct.pack('>H', i) for i in values['items'])
    want += values['text'].encode('ascii').ljust(size) + values['right'].encode('latin-1').rjust(size)
    want += json.dumps(values['tree']).encode('ascii')
    return Large, want, values


def check_record(size, obs):
    """Image, sizes, round trip and records one after the other."""
    cls, want, values = record(size, obs)
    obj = cls(**values)
    obs.equal(obj.calc_byte_size(), len(want), 'large-size', "computed size for %d", size)
    packed = obj.pack()
    same_bytes(packed, want, obs, 'large-image', size)
    obs.equal(obj.calc_byte_size(), len(want), 'large-size', "computed size after packing for %d", size)
    back = cls()
    obs.equal(back.unpack(packed), len(want), 'large-size', "bytes consumed for %d", size)
    for name in sorted(values):
        got = getattr(back, name)
        obs.expect(type(got) is type(values[name]) and got == values[name], 'large-value', "%s for %d: got %.60r, want %.60r",
                   name, size, got, values[name])
    obs.equal((back.size, back.count), (size, len(values['items'])), 'large-value', "derived fields for %d", size)
    same_bytes(back.pack(), want, obs, 'large-image', size)
    obs.hit('large_records')


def same_bytes(got, want, obs, kind, what):
    got, want = bytearray(got), bytearray(want)
    at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    obs.expect(got == want, kind, "%s: %d bytes, want %d, different from byte %d on: %.40r, want %.40r", what, len(got), len(want),
               at, bytes(got[at:at + 10]), bytes(want[at:at + 10]))


def check_fixed(size, obs):
    """Classes of a fixed size, with gaps and a declared size."""
    from infi.instruct import buffer as B

    class Fixed(B.Buffer):
        first = B.uint_field(where=B.bytes_ref[0])
        bits = B.uint_field(where=B.bytes_ref[size - 4].bits[2:7])
        last = B.be_uint_field(where=B.bytes_ref[size - 2:size])

    class Declared(Fixed):
        byte_size = size + 100
    for cls, total in ((Fixed, size), (Declared, size + 100)):
        want = bytearray(total)
        want[0], want[size - 4], want[size - 2], want[size - 1] = 7, 21 << 2, 0x12, 0x34
        obs.equal(cls.byte_size, total, 'large-size', "byte_size")
        obj = cls(first=7, bits=21, last=0x1234)
        same_bytes(obj.pack(), want, obs, 'large-image', size)
        obs.equal(obj.calc_byte_size(), total, 'large-size', "computed size")
        back = cls()
        obs.equal(back.unpack(bytes(want) + b'tail'), total, 'large-size', "bytes consumed")
        obs.equal((back.first, back.bits, back.last), (7, 21, 0x1234), 'large-value', "fields of %d bytes", total)
        obs.hit('large_records')


def check_codecs(size, obs):
    from infi.instruct import buffer as B
    rng = random.Random(size)
    text = 'a' + ''.join(rng.choice('xyz -') for _ in range(size // 2)) + 'b'
    for just, method in (('left', 'ljust'), ('right', 'rjust'), ('center', 'center')):
        for pad in (b' ', b'~'):
            cls = type('T', (B.Buffer,), {'x': B.str_field(where=B.bytes_ref[3:3 + size], justify=just, padding=pad),
                                          'l': B.list_field(where=B.bytes_ref[3 + size:3 + 3 * size], type=B.str_type_factory(
                                              byte_size=size, justify=just, padding=pad), n=2)})
            body = getattr(bytearray(text.encode('ascii')), method)(size, pad)
            want_all = b'\0\0\0' + bytes(body) * 3
            same_bytes(cls(x=text, l=[text, text]).pack(), want_all, obs, 'large-text', (size, just))
            back = cls()
            back.unpack(want_all)
            obs.expect(back.x == text and back.l == [text, text], 'large-text', "%r text of %d: got %.40r", just, size, back.x)
            obs.hit('large_codecs')
    for tree in ('y' * size, [i * 37 for i in range(size // 4)], dict((str(i), 'v%d' % i) for i in range(size // 16)), '9' * size, int('9' * min(size, 1000))):
        cls = type('J', (B.Buffer,), {'x': B.json_field(where=B.bytes_ref[1:])})
        want = b'\0' + json.dumps(tree).encode('ascii')
        same_bytes(cls(x=tree).pack(), want, obs, 'large-json', size)
        back = cls()
        back.unpack(want)
        obs.expect(back.x == tree, 'large-json', "JSON text of %d bytes: got %.40r", len(want), back.x)
        obs.hit('large_codecs')
    raw = bytearray(rng.getrandbits(8) for _ in range(size))
    for stop in (None, 2 + size):
        cls = type('R', (B.Buffer,), {'x': B.bytearray_field(where=B.bytes_ref[2:stop])})
        same_bytes(cls(x=raw).pack(), b'\0\0' + bytes(raw), obs, 'large-bytes', size)
        back = cls()
        back.unpack(b'..' + bytes(raw))
        same_bytes(back.x, raw, obs, 'large-bytes', size)
        obs.hit('large_codecs')
    for form in ('b_uint16', 'l_uint32', 'b_int64', 'uint8'):
        width = {'b_uint16': 2, 'l_uint32': 4, 'b_int64': 8, 'uint8': 1}[form]
        fmt = {'b_uint16': '>H', 'l_uint32': '<L', 'b_int64': '>q', 'uint8': 'B'}[form]
        items = [rng.getrandbits(width * 8 - 1) for _ in range(min(size // width, 2000))]
        cls = type('L', (B.Buffer,), {'x': B.list_field(where=B.bytes_ref[1:], type=getattr(B, form))})
        want = b'\0' + b''.join(struct.pack(fmt, i) for i in items)
        same_bytes(cls(x=items).pack(), want, obs, 'large-list', size)
        back = cls()
        back.unpack(want)
        obs.expect(back.x == items, 'large-list', "%s list of %d", form, len(items))
        obs.hit('large_codecs')


def check_arrays(size, obs):
    """Bit views and arrays of many bytes, against bytes and one large number."""
    from infi.instruct.buffer.io_buffer import BitAwareByteArray, BitView
    rng = random.Random(size)
    data = bytearray(rng.getrandbits(8) for _ in range(size))
    more = bytearray(rng.getrandbits(8) for _ in range(size))
    n = 8 * size

    def num(b):
        return int.from_bytes(bytes(b), 'little')

    def see(x, value, bits, what):
        obs.equal(int(x.length() * 8), bits, 'large-length', "%s of %d bytes", what, size)
        same_bytes(x.to_bytes(), value.to_bytes((bits + 7) // 8, 'little'), obs, 'large-bits', (what, size))
        same_bytes(bytearray(x), value.to_bytes((bits + 7) // 8, 'little'), obs, 'large-bits', (what, size))
        for _ in range(3):
            k = rng.randrange(bits - 8)
            obs.equal(x[k / 8.0], value >> k & 255, 'large-bits', "%s of %d bytes: byte at bit %d", what, size, k)
        obs.hit('large_arrays')
    whole, other = num(data), num(more)
    for lead in (0, 3):
        bits = n - lead
        value = whole >> lead
        view = BitView(bytearray(data), lead / 8.0, size)
        see(view, value, bits, 'view')
        a, b = sorted((rng.randrange(bits // 2), rng.randrange(bits // 2, bits)))
        see(view[a / 8.0:b / 8.0], value >> a & ((1 << (b - a)) - 1), b - a, 'slice')

        def array():
            return BitAwareByteArray(bytearray(data), lead / 8.0, size)
        x = array()
        x.extend(BitView(bytearray(more), 0, size - 0.25))
        see(x, value | (other & ((1 << (n - 2)) - 1)) << bits, bits + n - 2, 'extend')
        x = array() + BitView(bytearray(more))
        see(x, value | other << bits, bits + n, 'sum')
        x = array()
        x += BitView(bytearray(more))
        see(x, value | other << bits, bits + n, 'sum in place')
        x = array()
        x.zfill(size * 2)
        see(x, value, 2 * n, 'zfill')
        x = array()
        del x[a / 8.0:b / 8.0]
        see(x, (value & ((1 << a) - 1)) | value >> b << a, bits - (b - a), 'del')
        x = array()
        x.insert(a / 8.0, BitView(bytearray(more)))
        see(x, (value & ((1 << a) - 1)) | other << a | value >> a << (a + n), bits + n, 'insert')
        x = array()
        x[a / 8.0:b / 8.0] = BitView(bytearray(more))
        see(x, (value & ((1 << a) - 1)) | other << a | value >> b << (a + n), bits - (b - a) + n, 'replace')
        x = array()
        keep = (1 << (b - a)) - 1
        x[a / 8.0:b / 8.0] = BitView(bytearray(more), 0, (b - a) / 8.0)
        see(x, value & ~(keep << a) | (other & keep) << a, bits, 'replace alike')


def check_ranges(count, obs):
    """A field in many ranges."""
    from infi.instruct import buffer as B
    rng = random.Random(count)
    for how in ('bytes', 'slices', 'bits', 'sum'):
        if how == 'bits':
            places = rng.sample(range(count * 2), count)
            bits = list(places)
            make = lambda p: B.bytes_ref[0:count].bits[tuple(p)]
        else:
            places = rng.sample(range(count + 20), count)
            bits = [8 * p + k for p in places for k in range(8)]
            if how == 'bytes':
                make = lambda p: B.bytes_ref[tuple(p)]
            elif how == 'slices':
                make = lambda p: B.bytes_ref[tuple(slice(x, x + 1) for x in p)]
            else:
                def make(p):
                    out = B.bytes_ref[p[0]]
                    for x in p[1:]:
                        out = out + B.bytes_ref[x]
                    return out
        cls = type('R', (B.Buffer,), {'x': B.uint_field(where=make(places), endian='little')})
        value = rng.getrandbits(len(bits))
        image = 0
        for i, p in enumerate(bits):
            image |= (value >> i & 1) << p
        size = max(bits) // 8 + 1
        want = image.to_bytes(size, 'little')
        same_bytes(cls(x=value).pack(), want, obs, 'many-ranges', (how, count))
        back = cls()
        back.unpack(want)
        obs.equal(back.x, value, 'many-ranges', "%s of %d", how, count)
        obs.hit('many_ranges')
        again = list(places)
        i, j = rng.sample(range(count), 2)
        again[i] = again[j]
        for twice in (again, places + places[:1], places[-1:] + places):
            try:
                cls = type('R', (B.Buffer,), {'x': B.bytearray_field(where=make(twice))})
                got = cls(x=bytearray(len(twice))).pack()
            except Exception:
                obs.hit('many_ranges_rejected')
                continue
            obs.fail('many-overlaps', "%s: %r selects something twice and is packed to %r" % (how, twice, got))


def check_adapter(size, obs):
    from io import BytesIO
    from infi.instruct.buffer.compat import buffer_to_struct_adapter
    import infi.instruct as I
    from infi.instruct.struct import Field
    cls, want, values = record(size, obs)
    adapter = buffer_to_struct_adapter(cls)
    obj = cls(**values)
    stream = BytesIO()
    stream.write(b'lead')
    adapter.write_to_stream(obj, stream)
    same_bytes(stream.getvalue(), b'lead' + want, obs, 'large-write', size)
    same_bytes(adapter.write_to_string(obj), want, obs, 'large-write', size)
    obs.equal(adapter.sizeof(obj), len(want), 'large-size', "sizeof")
    back = adapter.create_from_string(want)
    for name in sorted(values):
        obs.expect(getattr(back, name) == values[name], 'large-value', "%s for %d", name, size)
    holder = type('Holder', (I.Struct,), {'_fields_': [I.UBInt8('head'), Field('body', adapter), I.UBInt8('tail')]})
    held = holder(head=1, body=obj, tail=2)
    same_bytes(held.to_bytes(), b'\1' + want + b'\2', obs, 'large-write', size)
    obs.equal(holder.sizeof(held), len(want) + 2, 'large-size', "sizeof of the struct")
    obs.hit('large_adapted')
