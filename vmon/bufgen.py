"""Random buffer classes (as specs for vmon.bufmodel) and values for them."""
import copy
import json

ENDIANS = ('native', 'big', 'little')
WORDS = ['alpha', 'beta', 'cookie', 'data', 'extra', 'flags', 'gamma', 'hdr', 'ident', 'junk', 'kind', 'lun', 'mode',
         'num', 'offset', 'page', 'qos', 'rev', 'sense', 'tag', 'unit', 'vendor', 'wwn', 'xfer', 'year', 'zone']
WORDS += [w + '2' for w in WORDS]
WORDS += ['_hidden', '_tail', '_reserved_', 'Upper', 'UNIT', 'under_score', '_']
PADS = [b' ', b'\x00', b'x', b'\xff', b'0']
ASCII = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ123456789_-:'


class Gen(object):
    """
    opts: probabilities of features (see DEFAULTS). Every generated class is unambiguous: no two of its fields overlap
    and references never form a cycle, unless asked otherwise.
    """
    DEFAULTS = dict(bits=0.4, multi=0.25, gap=0.15, dynamic=0.5, cond=0.3, lists=0.3, nested=0.3, depth=2, tail=0.5,
                    derived=0.4, inherit=0.15, declared=0.1, selector=0.15, max_bytes=14, open_tail=True, odd=0.5,
                    text=0.3, floats=0.2, sau=0.0, shifted=0.1, respell=0.35, split_where=0.15, ua=0.15, functions=0.2, big=0.015,
                    mirror=1, whole=0.03)

    def __init__(self, rng, **opts):
        self.rng = rng
        self.o = dict(self.DEFAULTS)
        self.o.update(opts)
        self.count = 0

    def chance(self, name):
        return self.rng.random() < self.o[name]

    def pick(self, seq):
        return self.rng.choice(list(seq))

    # -- classes ----------------------------------------------------------------------------------------------

    def spec(self, depth=None, fixed=False, open_tail=None, max_bytes=None):
        """fixed: the class has a size which does not depend on its values."""
        rng = self.rng
        depth = self.o['depth'] if depth is None else depth
        self.count += 1
        big = None
        if depth == self.o['depth'] and max_bytes is None and self.chance('big'):
            big = self.pick(('wide', 'wide', 'far', 'many', 'deep'))
        if big == 'deep':
            depth += 3
        state = _State(self, depth, rng)
        spec = {'name': 'Buf%d' % self.count, 'fields': state.fields, 'base': None}
        limit = max_bytes or self.o['max_bytes']
        base = 0
        whole = not fixed and max_bytes is None and open_tail is None and big is None and self.chance('whole')
        if not whole and rng.random() < 0.15:
            base = rng.randint(1, 5)                    # the class doesn't have to use its first bytes
        nbytes = rng.randint(1, limit)
        if big == 'far':
            base = rng.randint(100, 3000)
        elif big == 'many':
            state.names += [w + '3' + w for w in WORDS]
            nbytes = rng.randint(40, 90)
        wide = None
        if big == 'wide':
            wide = rng.choice((rng.randint(30, 300), rng.randint(30, 300), rng.randint(250, 1100), rng.choice((256, 4200))))
            nbytes += wide
        if whole:
            state.tail(0)                               # the first field may take all of the input
        else:
            state.block(base, nbytes, wide=wide)
        cursor = base + nbytes
        if not fixed and not whole:
            if self.chance('dynamic'):
                for _ in range(rng.randint(1, 3)):
                    cursor = state.dynamic_group(cursor)
            if (self.o['open_tail'] if open_tail is None else open_tail) and self.chance('tail'):
                state.tail(cursor)
        if self.chance('derived'):
            state.derived_fields()
        if len(state.fields) >= 2 and self.chance('ua'):
            # An explicit order, which has no effect on the values.
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(1, len(state.fields))
                before = rng.sample(state.fields[:k], rng.randint(1, min(k, 2)))
                before = [f['name'] for f in before if not needs(state.fields, f, state.fields[k])]
                if before:
                    state.fields[k].setdefault('ua', before)
        if len(state.fields) >= 2 and self.chance('functions'):
            by_function(rng, state.fields)
        if rng.random() < self.o['inherit'] and len(state.fields) >= 2:
            # The same layout split between a class and its base: the first fields in creation order go to the base.
            k = rng.randint(1, len(state.fields) - 1)
            self.count += 1
            spec['base'] = {'name': 'Base%d' % self.count, 'fields': state.fields[:k], 'base': None}
            # fields of the base refer only to earlier fields by object, but may name later ones: those must be moved.
            names = set(f['name'] for f in state.fields[:k])
            if any(not uses(f) <= names for f in state.fields[:k]):
                spec['base'] = None
            else:
                spec['fields'] = state.fields[k:]
        if self.chance('declared'):
            from vmon import bufmodel
            size = bufmodel.static_bits(spec)
            if size is not None:
                spec['byte_size'] = (size + 7) // 8 + rng.choice((0, 0, 1, 2, 3, 4))
                if rng.random() < 0.25 and "['tot']" not in repr(spec):
                    spec['byte_size'] = bufmodel.amount(size + rng.randint(0, 20))       # not necessarily whole bytes
            elif self_delimiting(spec):
                spec['byte_size'] = rng.randint(40, 80)
        return spec

    # -- range spelling ---------------------------------------------------------------------------------------

    def add(self, base, k):
        if isinstance(base, int):
            return base + k
        if k == 0:
            return base
        return ['+', base, k] if self.rng.random() < 0.8 else ['+', k, base]

    def byte_range(self, base, s, e):
        """s, e in bytes."""
        if e == s + 1 and self.rng.random() < 0.6:
            return ['at', self.add(base, s)]
        if s == 0 and base == 0 and self.rng.random() < 0.3:
            return ['sl', None, self.add(base, e)]
        return ['sl', self.add(base, s), self.add(base, e)]

    def bit_range(self, base, s, e, nbytes):
        """s, e in bits, relative to base; the bytes that base covers limit the size of the parent range."""
        rng = self.rng
        lo, hi = s // 8, (e + 7) // 8
        if rng.random() < 0.3:
            lo = rng.randint(0, lo)
        if rng.random() < 0.3:
            hi = rng.randint(hi, nbytes)
        i, j = s - lo * 8, e - lo * 8
        if hi - lo >= 2 and rng.random() < 0.3:
            m = rng.randint(lo + 1, hi - 1)          # the parent is a list of two ranges
            parts = [self.byte_range(base, lo, m), self.byte_range(base, m, hi)]
            parent = ['ls', parts]
        else:
            parent = self.byte_range(base, lo, hi)
        if j == i + 1 and rng.random() < 0.5:
            return ['bit', parent, i]
        a, b = i, j
        if i == 0 and rng.random() < 0.3:
            a = None
        if j == (hi - lo) * 8 and rng.random() < 0.3:
            b = None
        if j - i >= 2 and rng.random() < 0.15:
            m = rng.randint(i + 1, j - 1)
            return ['bit', parent, ['l', [['s', i, m], ['s', m, j]]]]
        return ['bit', parent, ['s', a, b]]

    def spell(self, base, ranges, nbytes):
        """An expression for the ranges (bits, relative to base)."""
        rng = self.rng
        parts, byteish = [], True
        for s, e in ranges:
            if s % 8 == 0 and e % 8 == 0 and rng.random() > self.o['respell'] * 0.5:
                parts.append(self.byte_range(base, s // 8, e // 8))
            else:
                byteish = False
                parts.append(self.bit_range(base, s, e, nbytes))
        if len(parts) == 1:
            if parts[0][0] != 'bit' and rng.random() < self.o['respell'] * 0.3:
                return ['ls', parts]
            return parts[0]
        if byteish and rng.random() < 0.6:
            # bytes_ref[a:b, c:d] and its bits
            if rng.random() < 0.2:
                return ['bit', ['ls', parts], ['s', None if rng.random() < 0.5 else 0,
                                               sum(e - s for s, e in ranges)]]
            return ['ls', parts]
        return ['sum', parts]

    # -- leaf fields for a number of bits ---------------------------------------------------------------------

    def leaf(self, width, depth, aligned=True):
        """Field options (no name, no position) of something that occupies exactly `width` bits."""
        rng = self.rng
        if width % 8:
            return self.int_kind(width)
        size = width // 8
        kinds = ['int'] * 5
        if rng.random() < self.o['text']:
            kinds += ['str', 'bytes', 'str', 'bytes']
        if size in (4, 8) and rng.random() < self.o['floats']:
            kinds += ['float'] * 4
        if size >= 2 and rng.random() < self.o['text'] * 0.4:
            kinds += ['json']
        if rng.random() < self.o['lists']:
            kinds += ['list'] * 3
        if depth > 0 and rng.random() < self.o['nested']:
            kinds += ['buf'] * 4
        kind = self.pick(kinds)
        if kind == 'int':
            return self.int_kind(width)
        if kind == 'float':
            f = {'kind': 'float', 'endian': self.pick(ENDIANS)}
            if rng.random() < 0.3:
                f['size'] = size
            return f
        if kind == 'str':
            return self.str_kind()
        if kind in ('bytes', 'json'):
            return {'kind': kind}
        if kind == 'list':
            sizes = [s for s in (1, 2, 4, 8) if size % s == 0]
            s = self.pick(sizes)
            if depth > 0 and rng.random() < 0.3:
                elem = ['buf', self.sized_spec(s, depth - 1)]
            elif rng.random() < 0.25:
                elem = ['str', s]
            else:
                elem = ['int', s, rng.random() < 0.5, self.pick(ENDIANS)]
            f = {'kind': 'list', 'elem': elem, 'count': size // s}
            if rng.random() < 0.4:
                f['n'] = size // s
            return f
        return {'kind': 'buf', 'spec': self.sized_spec(size, depth - 1)}

    def sized_spec(self, size, depth):
        """A class of exactly `size` bytes."""
        self.count += 1
        name = 'Buf%d' % self.count
        state = _State(self, depth, self.rng)
        state.block(0, size, gaps=False)
        return {'name': name, 'fields': state.fields, 'base': None}

    def int_kind(self, width):
        rng = self.rng
        standard = width in (8, 16, 32, 64)
        f = {'kind': 'int', 'signed': rng.random() < 0.5 if standard else rng.random() < 0.3,
             'endian': self.pick(ENDIANS), 'api': rng.randint(0, 2), 'width': width}
        if width % 8 == 0 and rng.random() < 0.15:
            f['size'] = width // 8
        return f

    def str_kind(self):
        rng = self.rng
        f = {'kind': 'str'}
        if rng.random() < 0.3:
            f['just'] = self.pick(('left', 'right', 'center'))
        if rng.random() < 0.3:
            f['pad'] = self.pick(PADS)
        if rng.random() < 0.2:
            f['strip'] = self.pick((b'\x00', b'\n', b'\x00\n'))
        if rng.random() < 0.3:
            f['enc'] = self.pick(('utf-8', 'utf-8', 'latin-1', 'ascii'))
        return f


def uses(f):
    """Names of the fields which the definition of f refers to."""
    out = set()

    def walk(e):
        if isinstance(e, list):
            if len(e) == 2 and e[0] in ('f', 'self', 'any', 'after', 'len', 'lens') and isinstance(e[1], str):
                out.add(e[1])
            else:
                for x in e:
                    walk(x)
    for key in ('w', 'wp', 'wu', 'pif', 'uif', 'sbp', 'sau', 'n'):
        if f.get(key) is not None:
            walk(f[key])
    if f.get('sbp') and f['sbp'][0] == 'fn':
        out.update(f['sbp'][2:])
    if f.get('sel') and f['sel'].get('attr'):
        out.add(f['sel']['attr'])
    out.update(f.get('ua') or ())
    return out


def needs(fields, f, other):
    """Whether f may depend on the other field."""
    by_name = dict((x['name'], x) for x in fields)
    seen, todo = set(), [f['name']]
    while todo:
        n = todo.pop()
        if n == other['name']:
            return True
        if n not in seen and n in by_name:
            seen.add(n)
            todo += uses(by_name[n])
    return "'tot'" in repr([by_name[n] for n in seen])


def by_function(rng, fields):
    """Functions of the object in the place of references, in fields that are unpacked after what the functions read."""
    for k, f in enumerate(fields):
        names = set(x['name'] for x in fields[:k] if x['kind'] == 'int' and x.get('sbp') is None and x.get('uif') is None)
        read = set()

        def walk(e):
            if not isinstance(e, list):
                return e
            if len(e) == 2 and e[0] in ('f', 'self') and e[1] in names and rng.random() < 0.8:
                read.add(e[1])
                return ['mf', e[1]]
            return [walk(x) for x in e]
        for key in ('w', 'wp', 'wu', 'pif', 'uif', 'n'):
            if f.get(key) is not None:
                f[key] = walk(f[key])
        if read:
            f['ua'] = sorted(set(f.get('ua') or ()) | read)


class _State(object):
    """One class under construction."""

    def __init__(self, gen, depth, rng):
        self.g = gen
        self.depth = depth
        self.rng = rng
        self.fields = []
        self.names = WORDS[:]
        rng.shuffle(self.names)
        self.small_uints = []      # unconditional unsigned fields of 1-2 bytes which nothing derives yet

    def name(self):
        n = self.names.pop()
        if self.rng.random() < 0.15:
            n += '_%d' % self.rng.randint(0, 9)
        return n

    def put(self, f, where):
        f['name'] = self.name()
        if where is not None:
            f['w'] = where
        self.fields.append(f)
        return f

    # -- a block of bytes at a known distance from base ---------------------------------------------------------

    def block(self, base, nbytes, gaps=True, wide=None):
        """Carves the bytes [base, base + nbytes) into fields. The last byte is always used. One field may be wide."""
        g, rng = self.g, self.rng
        pieces, pos, end = [], 0, nbytes * 8
        while pos < end:
            left = end - pos
            if wide is not None and pos % 8 == 0 and left >= wide * 8 and (rng.random() < 0.5 or left < (wide + 2) * 8):
                width, wide = wide * 8, None
            elif pos % 8 == 0 and rng.random() >= g.o['bits']:
                k = min(left // 8, g.pick((1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 8)))
                width = k * 8
            else:
                width = min(left, rng.randint(1, 12) if rng.random() < 0.8 else rng.randint(1, 30))
            if gaps and rng.random() < g.o['gap'] and pos + width < end:
                pos += width
                continue
            pieces.append([(pos, pos + width)])
            pos += width
        if rng.random() < g.o['multi'] and len(pieces) >= 2:
            for _ in range(rng.randint(1, 2)):
                if len(pieces) < 2:
                    break
                k = rng.randint(2, min(3, len(pieces)))
                chosen = rng.sample(range(len(pieces)), k)
                if rng.random() < 0.4:
                    chosen.sort()
                merged = [r for c in chosen for r in pieces[c]]
                pieces = [p for i, p in enumerate(pieces) if i not in chosen] + [merged]
        if rng.random() < 0.5:
            rng.shuffle(pieces)
        while len(pieces) > max(1, len(self.names) - 8):
            # Out of names: one field takes several pieces.
            b = pieces.pop()
            pieces[0] = pieces[0] + b
        for ranges in pieces:
            width = sum(e - s for s, e in ranges)
            f = g.leaf(width, self.depth)
            self.put(f, g.spell(base, ranges, nbytes))
            if f['kind'] == 'int' and not f['signed'] and width in (8, 16):
                self.small_uints.append(f)

    # -- groups whose size depends on the values ------------------------------------------------------------------

    def plain_uint(self, base, k):
        g = self.g
        f = {'kind': 'int', 'signed': False, 'endian': g.pick(ENDIANS), 'api': self.rng.randint(0, 2), 'width': k * 8}
        return self.put(f, g.byte_range(base, 0, k))

    def named(self, f):
        """A reference to the value of a field defined before."""
        return [self.g.pick(('f', 'f', 'self')), f['name']]

    def dynamic_group(self, base):
        g, rng = self.g, self.rng
        groups = ['prefix', 'prefix', 'counted', 'trailer']
        if rng.random() < g.o['split_where']:
            groups += ['onesided']
        if rng.random() < g.o['cond']:
            groups += ['cond', 'cond', 'presence']
        if self.depth > 0 and rng.random() < g.o['nested']:
            groups += ['nested']
        if rng.random() < g.o['lists']:
            groups += ['counted']
        if rng.random() < g.o['multi']:
            groups += ['scattered']
        if rng.random() < g.o['derived'] * g.o['mirror']:
            groups += ['mirror']
        if len(self.names) < 8:
            return base
        return getattr(self, 'group_' + g.pick(groups))(base)

    def after(self, base, k, f):
        """The offset right after field f, which begins k bytes after base."""
        return ['after', f['name']]

    def group_prefix(self, base):
        """[length][payload of that many bytes]"""
        g, rng = self.g, self.rng
        k = g.pick((1, 1, 2))
        n = self.plain_uint(base, k)
        start = g.add(base, k)
        kind = g.pick(('str', 'bytes', 'bytes', 'list'))
        f = g.str_kind() if kind == 'str' else {'kind': kind}
        f.pop('just', None)
        f.pop('enc', None)
        if kind == 'list':
            f['elem'] = ['int', 1, rng.random() < 0.5, g.pick(ENDIANS)]
        f['var'] = True
        n['ctrl'] = True
        ref = self.named(n)
        if rng.random() < 0.2:
            ref = ['min', ref, 200] if rng.random() < 0.5 else ['max', ref, 0]
        if rng.random() < g.o['split_where']:
            self.put(f, None)
            f['wp'] = ['sl', start, None]
            f['wu'] = ['sl', start, ['+', start, ref] if start != 0 else ref]
        else:
            stop = ['+', start, ref]
            if rng.random() < 0.2:
                m = rng.randint(1, 3)
                stop = ['-', ['+', start, ['+', ref, m]], m]
            self.put(f, ['sl', start, stop])
        n['sbp'] = ['ref', [g.pick(('len', 'lens')), f['name']]] if rng.random() < 0.8 else ['fn', 'sumlen', f['name']]
        return ['after', f['name']] if rng.random() < 0.7 else ['+', start, self.named(n)]

    def group_counted(self, base):
        """[count][that many elements]"""
        g, rng = self.g, self.rng
        n = self.plain_uint(base, 1)
        n['ctrl'] = True
        start = g.add(base, 1)
        s = g.pick((1, 2, 4))
        if self.depth > 0 and rng.random() < 0.5:
            elem = ['buf', g.sized_spec(s, self.depth - 1)]
        else:
            elem = ['int', s, rng.random() < 0.5, g.pick(ENDIANS)]
        f = {'kind': 'list', 'elem': elem, 'var': True}
        how = rng.random()
        if how < 0.5:
            self.put(f, ['sl', start, ['+', start, ['*', self.named(n), s] if rng.random() < 0.7 else
                                       ['*', s, self.named(n)]]])
        else:
            f['n'] = self.named(n)
            self.put(f, self.split_open(f, start) if rng.random() < 0.3 else ['sl', start, None])
        n['sbp'] = ['ref', [g.pick(('len', 'lens')), f['name']]]
        return ['after', f['name']]

    def group_onesided(self, base):
        """A field whose position is computed in one direction and written down in the other."""
        g, rng = self.g, self.rng
        k = rng.randint(1, 4)
        n = self.plain_uint(base, 1)
        n['sbp'] = ['const', k]
        n['ctrl'] = True
        start = g.add(base, 1)
        f = self.put(g.leaf(k * 8, 0), None)
        fixed, computed = g.byte_range(start, 0, k), ['sl', start, ['+', start, self.named(n)]]
        f['wp'], f['wu'] = (fixed, computed) if rng.random() < 0.7 else (computed, fixed)
        return g.add(base, k + 1)

    def group_scattered(self, base):
        """A field of several ranges, not in ascending order, and one right after the highest of them."""
        g, rng = self.g, self.rng
        cuts = sorted(rng.sample(range(0, 9), rng.choice((4, 4, 6))))
        parts = [(cuts[i], cuts[i + 1]) for i in range(0, len(cuts), 2)]
        rng.shuffle(parts)
        if rng.random() < 0.7 and parts[-1][1] == cuts[-1]:
            parts.reverse()
        f = g.leaf(8 * sum(b - a for a, b in parts), 0)
        if rng.random() < 0.3:
            c = rng.choice(cuts)
            parts.insert(rng.randint(0, len(parts)), (c, c))     # one of the ranges is empty
        self.put(f, ['ls' if rng.random() < 0.6 else 'sum', [g.byte_range(base, a, b) for a, b in parts]])
        f['scattered'] = True
        k = rng.randint(1, 3)
        last = self.put(g.leaf(k * 8, 0), g.byte_range(['after', f['name']], 0, k))
        return ['after', last['name']] if rng.random() < 0.5 else g.add(base, cuts[-1] + k)

    def group_mirror(self, base):
        """A field whose value is that of another, of any kind."""
        g, rng = self.g, self.rng
        k = rng.choice((1, 2, 3, 4, 6, 8))
        f = g.leaf(k * 8, 0)
        copied = copy.deepcopy(f)
        copied['mirror'] = True
        if rng.random() < 0.7:
            self.put(f, g.byte_range(base, 0, k))
            self.put(copied, g.byte_range(g.add(base, k), 0, k))
            ops = ('any', 'any', 'f')
        else:
            self.put(copied, g.byte_range(base, 0, k))
            self.put(f, g.byte_range(g.add(base, k), 0, k))
            ops = ('any',)
        copied['sbp'] = ['fn', 'copy', f['name']] if rng.random() < 0.25 else ['ref', [g.pick(ops), f['name']]]
        return g.add(base, 2 * k)

    def group_trailer(self, base):
        """A block of fixed size at a computed offset."""
        k = self.rng.randint(1, 4)
        self.block(base, k)
        return self.g.add(base, k)

    def group_cond(self, base):
        """A field that is there only if a flag says so; its place remains."""
        g, rng = self.g, self.rng
        flag = self.plain_uint(base, 1)
        k = g.pick((1, 2, 4, 3))
        f = self.put(g.leaf(k * 8, 0), g.byte_range(g.add(base, 1), 0, k))
        op = g.pick(('>', '>=', '<', '<=', '==', '!='))
        cond = ['cmp', op, self.named(flag), rng.randint(0, 3)]
        if rng.random() < 0.25:
            cond = self.named(flag)
            cond[0] = 'f'
        f['pif'] = f['uif'] = cond
        flag['flag'] = True
        return g.add(base, k + 1)

    def group_presence(self, base):
        """A field that takes no place when it's absent: what follows moves."""
        g, rng = self.g, self.rng
        flag = self.plain_uint(base, 1)
        k = g.pick((1, 2, 4, 3))
        start = g.add(base, 1)
        f = self.put(g.leaf(k * 8, 0), g.byte_range(start, 0, k))
        f['pif'] = f['uif'] = ['cmp', '==', self.named(flag), 1]
        flag['flag'] = 'bool'
        return ['+', start, ['*', self.named(flag), k]]

    def group_nested(self, base):
        """A nested buffer which knows where it ends."""
        g = self.g
        f = {'kind': 'buf', 'spec': g.spec(self.depth - 1, open_tail=False, max_bytes=4)}
        if not self_delimiting(f['spec']):
            f['spec'] = g.sized_spec(self.rng.randint(1, 4), self.depth - 1)
        self.put(f, ['sl', base, None])
        return ['after', f['name']]

    def split_open(self, f, base):
        """A position that begins with closed ranges and ends with an open one."""
        g, rng = self.g, self.rng
        parts, least = [], 0
        for _ in range(rng.randint(1, 2)):
            k = rng.randint(1, 3)
            parts.append(['sl', base, g.add(base, k)])
            base, least = g.add(base, k), least + k
            if rng.random() < 0.7 and len(self.names) > 4:
                k = rng.randint(1, 2)
                if rng.random() < 0.7:
                    self.plain_uint(base, k)
                base = g.add(base, k)
        rng.shuffle(parts)
        f['least'] = least
        return ['ls' if rng.random() < 0.7 else 'sum', parts + [['sl', base, None]]]

    def tail(self, base):
        g, rng = self.g, self.rng
        kinds = ['str', 'bytes', 'json']
        if rng.random() < g.o['lists']:
            kinds += ['list', 'list', 'list', 'mflist']
        if self.depth > 0 and rng.random() < g.o['nested']:
            kinds += ['buf', 'buf']
            if rng.random() < g.o['selector'] * 3:
                kinds += ['selbuf', 'sellist'] * 2
        kind = g.pick(kinds)
        where = ['sl', base, None]
        if rng.random() < g.o['split_where'] and len(self.names) > 4:
            return self.ends(base)
        if kind == 'str':
            f = g.str_kind()
            f['var'] = True
        elif kind == 'list':
            f = {'kind': 'list', 'var': True, 'elem': ['int', g.pick((1, 2, 4, 8)), rng.random() < 0.5, g.pick(ENDIANS)]}
            if self.depth > 0 and rng.random() < 0.6:
                f['elem'] = ['buf', g.spec(self.depth - 1, open_tail=False, max_bytes=3)]
                if not self_delimiting(f['elem'][1]):
                    f['elem'][1] = g.sized_spec(rng.randint(1, 3), self.depth - 1)
        elif kind == 'buf':
            f = {'kind': 'buf', 'spec': g.spec(self.depth - 1, max_bytes=4)}
        elif kind == 'selbuf':
            tag = self.plain_uint(base, 1)
            tag['tag'] = True
            where = ['sl', g.add(base, 1), None]
            n = rng.randint(1, 3)
            table = [[i * 3 + 1, g.spec(self.depth - 1, max_bytes=4)] for i in range(n)]
            f = {'kind': 'buf', 'spec': table[0][1], 'sel': {'by': 'attr', 'attr': tag['name'], 'map': table},
                 'ua': [tag['name']]}
            tag['choices'] = [k for k, _ in table]
        elif kind == 'mflist':
            # The number of elements comes from a function of the object.
            cnt = self.plain_uint(base, 1)
            cnt['flag'] = True
            where = ['sl', g.add(base, 1), None]
            f = {'kind': 'list', 'var': True, 'elem': ['int', g.pick((1, 2, 4)), rng.random() < 0.5, g.pick(ENDIANS)],
                 'n': ['mf', cnt['name']], 'ua': [cnt['name']]}
            cnt['counts'] = None
        elif kind == 'sellist':
            # Elements which begin with a tag.
            table = []
            for i in range(rng.randint(1, 3)):
                k = rng.randint(0, 3)
                g.count += 1
                name = 'Sel%d' % g.count
                st = _State(g, self.depth - 1, rng)
                t = st.put({'kind': 'int', 'signed': False, 'endian': 'native', 'api': 0, 'width': 8}, ['at', 0])
                t['fixed_value'] = i * 5 + 2
                if k:
                    st.block(1, k, gaps=False)
                table.append([i * 5 + 2, {'name': name, 'fields': st.fields, 'base': None}])
            f = {'kind': 'list', 'var': True, 'elem': ['buf', table[0][1]], 'sel': {'by': 'peek', 'map': table}}
        else:
            f = {'kind': kind, 'var': True}
        if kind in ('str', 'bytes', 'list', 'mflist') and rng.random() < 0.3 and 'just' not in f:
            where = self.split_open(f, where[1])
        self.put(f, where)
        if kind == 'mflist':
            cnt['counts'] = f['name']

    def ends(self, base):
        """Content of any length, and a trailer which is found from the end when unpacking."""
        g, rng = self.g, self.rng
        k = rng.randint(1, 4)
        first = rng.random() < 0.5
        f = {'kind': g.pick(('bytes', 'bytes', 'list')), 'var': True}
        if f['kind'] == 'list':
            f['elem'] = ['int', 1, rng.random() < 0.5, g.pick(ENDIANS)]
        self.put(f, None)
        f['wp'], f['wu'] = ['sl', base, None], ['sl', base, ['-', ['ibl'], k]]
        last = self.put(g.leaf(k * 8, 0), None)
        stop = ['after', f['name']]
        last['wp'] = ['sl', stop, ['+', stop, k]]
        last['wu'] = ['sl', ['-', ['ibl'], k], ['ibl'] if first else None]

    def derived_fields(self):
        g, rng = self.g, self.rng
        pool = [f for f in self.small_uints if not f.get('sbp') and not f.get('pif')]
        rng.shuffle(pool)
        for f in pool[:rng.randint(1, 2)]:
            width = f['width']
            r = rng.random()
            if r < 0.35:
                f['sbp'] = ['ref', ['tot']] if rng.random() < 0.6 else ['ref', ['+', ['tot'], rng.randint(1, 9)]]
                f['ctrl'] = True
            elif r < 0.6:
                others = [x for x in self.fields if x['kind'] in ('str', 'bytes', 'list') and not x.get('pif')]
                if others:
                    x = g.pick(others)
                    f['sbp'] = ['ref', ['+', ['len', x['name']], rng.randint(0, 5)]]
                    f['ctrl'] = True
            elif r < 0.8:
                others = [x for x in self.fields if x['kind'] == 'int' and x is not f and not x.get('sbp')
                          and x.get('width', 99) <= 7 and not x.get('pif')]
                if others:
                    x = g.pick(others)
                    f['sbp'] = ['fn', 'attr+1', x['name']]
                    f['ctrl'] = True
            else:
                f['sbp'] = ['const', rng.randint(0, 255)]
                f['ctrl'] = True


def arithmetic(rng, names, depth=3):
    """A random numeric expression over fields (and the total size)."""
    r = rng.random()
    if depth == 0 or r < 0.25:
        if rng.random() < 0.25:
            return rng.randint(0, 9)
        if rng.random() < 0.12:
            return ['tot']
        return [rng.choice(('f', 'self')), rng.choice(names)]
    if r < 0.35:
        return ['neg', not_constant(rng, names, depth - 1)]
    if r < 0.5:
        return [rng.choice(('min', 'max'))] + [arithmetic(rng, names, depth - 1) for _ in range(rng.randint(2, 4))]
    op = rng.choice(('+', '-', '*', '+', '-', '*', '//'))
    a, b = not_constant(rng, names, depth - 1), arithmetic(rng, names, depth - 1)
    if op == '//':
        b = rng.randint(1, 9)
    return [op, b, a] if rng.random() < 0.5 and op != '//' else [op, a, b]


def not_constant(rng, names, depth):
    while True:
        e = arithmetic(rng, names, depth)
        if isinstance(e, list):
            return e


def is_open(where):
    if where[0] in ('ls', 'sum'):
        return any(is_open(x) for x in where[1])
    return where[0] == 'sl' and where[2] is None


def self_delimiting(spec):
    """Reading it consumes what packing it wrote, even if more bytes follow."""
    from vmon import bufmodel
    for f in bufmodel.all_fields(spec):
        if f.get('var') and 'wp' in f or "['ibl']" in repr(f.get('wu')):
            return False
        if is_open(f.get('w', ['at', 0])) and (f['kind'] in ('str', 'bytes', 'json')
                                               or f['kind'] == 'list' and f.get('n') is None):
            return False
        if f['kind'] == 'buf' and not self_delimiting(f['spec']):
            return False
        if f.get('sel'):
            return False
    # an absent last field would leave bytes unwritten but skipped, or the reverse
    return not any(f.get('pif') is not None for f in bufmodel.all_fields(spec))


# ---------------------------------------------------------------------------------------------------------------
# values
# ---------------------------------------------------------------------------------------------------------------

def edge_int(rng, lo, hi):
    r = rng.random()
    if r < 0.12:
        return lo
    if r < 0.24:
        return hi
    if r < 0.3:
        return max(lo, min(hi, rng.choice((0, 1, -1, lo + 1, hi - 1))))
    if r < 0.45:
        b = rng.randint(0, max(0, hi.bit_length()))
        return max(lo, min(hi, (1 << b) - rng.randint(0, 1)))
    return rng.randint(lo, hi)


def text(rng, n, alphabet=ASCII):
    return ''.join(rng.choice(alphabet) for _ in range(n))


def json_atom(rng):
    r = rng.random()
    if r < 0.25:
        return rng.choice((0, 1, True, False, 0.5, -1, 7))
    if r < 0.4:
        return rng.choice((1, -1)) * rng.randint(10 ** rng.choice((1, 5, 15, 18)), 10 ** 20)
    if r < 0.5:
        return rng.choice((0.1, -2.5, 1e300, 1.5e-07, 100.0, -0.0))
    if r < 0.6:
        return rng.choice(('', 'a.b', '\u05d0', '"', '\\', 'x\n', ' x', '1', 'null', '\x00', '}{'))
    if r < 0.65:
        return None
    return text(rng, rng.randint(0, 4))


def json_tree(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.4:
        return json_atom(rng)
    if r < 0.7:
        return [json_tree(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return dict((text(rng, rng.randint(0, 3)), json_tree(rng, depth - 1)) for _ in range(rng.randint(0, 2)))


def json_value(rng, room, depth=2):
    """A JSON value whose text takes at most `room` bytes (at least 1)."""
    for _ in range(20):
        r = rng.random()
        if r < 0.2:
            v = rng.choice([rng.randint(-9, 99), rng.randint(-10 ** 6, 10 ** 6), 0, True, False, None, 0.5])
        elif r < 0.35:
            v = text(rng, rng.randint(0, max(0, room - 2)))
        elif r < 0.5:
            v = [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
        else:
            v = json_tree(rng, depth)
        if len(json.dumps(v)) <= room and v is not None:
            return v
    return 7


def float_value(rng, size):
    import struct
    r = rng.random()
    if r < 0.25:
        v = rng.choice([0.0, -0.0, 1.0, -1.5, float('inf'), float('-inf'), 2.0 ** -149, 65504.0, 0.1])
    elif r < 0.35:
        v = rng.choice([1, 0, -3])
    else:
        v = rng.uniform(-1e6, 1e6)
    if size == 4 and v == v and abs(v) != float('inf'):
        v = struct.unpack('<f', struct.pack('<f', v))[0]
    return float(v)


def string_for(rng, f, room, exact=False):
    """A string that survives padding and stripping in `room` bytes."""
    enc = f.get('enc', 'ascii')
    pad, strip = f.get('pad', b' '), f.get('strip', b'\x00')
    alphabet = ASCII
    if enc != 'ascii':
        alphabet = (ASCII if rng.random() < 0.5 else 'abc') + (u'\xe9\xfc\xb5' if enc == 'latin-1' else u'\xe9\u05d0\u20ac')
    bad = set(bytearray(pad + strip))
    n = room if exact else rng.randint(0, room)
    while True:
        s = text(rng, n, alphabet)
        raw = s.encode(enc)
        if len(raw) <= room and (not exact or len(raw) == room):
            if not raw or (raw[0] not in bad and raw[-1] not in bad):
                return s
        if n > 0 and not exact:
            n = rng.randint(0, n)
        if exact:
            alphabet = ''.join(c for c in ASCII if ord(c) not in bad)


def room_of(spec, f):
    """Size in bits of a field with closed, static ranges."""
    from vmon import bufmodel
    sides = [f['w']] if 'w' in f else [f['wp'], f['wu']]
    if f.get('var') or None in sides:
        return None
    ev = bufmodel.Eval(spec)
    ev.num = lambda x: x if x is None or isinstance(x, (int, float)) else _offset(x)
    # A length which is computed counts as 1000: the side which is written down is the smaller one.
    rooms = []
    for e in sides:
        ranges = ev.ranges(e)
        if bufmodel.closed_ranges(ranges):
            rooms.append(bufmodel.range_length(ranges))
    return min(rooms) if rooms else None


def _offset(e):
    """Any base offset will do to measure a range: references count as 1000 (they only appear as common offsets)."""
    if isinstance(e, (int, float)):
        return e
    if e[0] in ('+', '-', '*'):
        a, b = _offset(e[1]), _offset(e[2])
        return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b
    if e[0] in ('min', 'max'):
        return 1000
    return 1000


def values(rng, spec):
    """A value for every field that isn't derived; survives a round trip."""
    from vmon import bufmodel
    out = {}
    for f in bufmodel.all_fields(spec):
        if f.get('sbp') is not None:
            continue
        out[f['name']] = value(rng, spec, f, out)
    for f in bufmodel.all_fields(spec):
        if f.get('counts'):
            out[f['name']] = len(out[f['counts']])
        if f.get('sel') and f['sel']['by'] == 'attr':
            k, s = rng.choice(f['sel']['map'])
            out[f['sel']['attr']] = k
            out[f['name']] = {'$spec': s, '$values': values(rng, s)}
    return out


def value(rng, spec, f, out):
    kind = f['kind']
    if 'fixed_value' in f:
        return f['fixed_value']
    if f.get('flag') == 'bool':
        return rng.randint(0, 1)
    if f.get('flag'):
        return rng.randint(0, 4)
    if kind == 'int':
        w = f['width']
        if f['signed'] and w in (8, 16, 32, 64):
            return edge_int(rng, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return edge_int(rng, 0, (1 << w) - 1)
    bits = room_of(spec, f)
    if kind == 'float':
        return float_value(rng, f['size'] if f.get('size') else 4 if bits is None else bits // 8)
    if kind == 'str':
        room = long_room(rng, f) or rng.choice((0, 1, 2, 5, 12)) if bits is None else bits // 8
        if f.get('least'):
            return string_for(rng, dict(f, enc='ascii'), f['least'] + rng.choice((0, 0, room)), exact=True)
        return string_for(rng, f, room)
    if kind == 'json':
        return json_value(rng, rng.choice((14, 14, 60)) if bits is None else bits // 8)
    if kind == 'bytes':
        n = f.get('least', 0) + (long_room(rng, f) or rng.choice((0, 1, 3, 9))) if bits is None else (bits + 7) // 8
        b = bytearray(rng.getrandbits(8) for _ in range(n))
        if bits is not None and bits % 8:
            b[-1] &= (1 << (bits % 8)) - 1
        return bytes(b)
    if kind == 'buf':
        return values(rng, f['spec'])
    n = f['count'] if 'count' in f else rng.choice((0, 1, 2, 3, 5))
    if 'count' not in f and f['elem'][0] == 'int':
        n = long_room(rng, f) or n
    if f.get('least'):
        size = f['elem'][1] if f['elem'][0] == 'int' else 1
        n = (f['least'] + size - 1) // size + rng.choice((0, 0, 1, n))
    if f.get('sel'):
        out_list = []
        for _ in range(n):
            k, s = rng.choice(f['sel']['map'])
            out_list.append({'$spec': s, '$values': values(rng, s)})
        return out_list
    out_list = [element(rng, f['elem']) for _ in range(n)]
    if n > 1 and f['elem'][0] == 'buf' and rng.random() < 0.3:
        # Some elements are alike.
        i = rng.randrange(n - 1)
        out_list[i + 1:] = [copy.deepcopy(out_list[i]) for _ in out_list[i + 1:]]
    return out_list


def long_room(rng, f):
    """Seldom, a value which is much longer than the others; what a length field or a flag counts stays below 200."""
    if rng.random() < 0.985:
        return None
    if f.get('w') is None or not is_open(f['w']) or f.get('n') is not None:
        return rng.randint(40, 190)
    return rng.choice((rng.randint(40, 300), rng.randint(250, 1500), 4200))


def element(rng, el):
    if el[0] == 'int':
        w = el[1] * 8
        return edge_int(rng, -(1 << (w - 1)), (1 << (w - 1)) - 1) if el[2] else edge_int(rng, 0, (1 << w) - 1)
    if el[0] == 'str':
        return string_for(rng, {}, el[1])
    return values(rng, el[1])
