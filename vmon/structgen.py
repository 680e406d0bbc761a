"""Generates struct specs, values and hostile inputs for vmon.structmodel."""
import math
import struct as pystruct

from vmon import structmodel as M

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lam', 'mu', 'nu', 'xi', 'omicron', 'pi',
         'rho', 'sigma', 'tau', 'ups', 'phi', 'chi', 'psi', 'omega', 'a1', 'b2', 'c3', 'd4', 'e5', 'f6', '_x', 'x_', 'length', 'data',
         'size', 'count', 'type', 'key', 'value', 'name', 'id', 'min', 'max', 'struct', 'context', 'stream', 'marshal', 'default', 'cls']
INTS = sorted(n for n in M.FORMATS if 'Float' not in n)
UNSIGNED = [n for n in INTS if n[0] == 'U']
FLOATS = sorted(n for n in M.FORMATS if 'Float' in n)


class Gen(object):
    def __init__(self, rng, size=5, depth=3, kinds=None, weights=None, big=0.012):
        self.rng = rng
        self.big = big
        self.size = size
        self.depth = depth
        self.count = 0
        self.weights = weights or {}

    def seldom(self):
        """Whether to make something much larger than usual."""
        return self.rng.random() < self.big

    def fresh(self):
        self.count += 1
        return 'S%d' % self.count

    # -- specs

    def spec(self, depth=None, n=None, fixed=False, first=None, ctx=True, nonzero=False):
        rng = self.rng
        depth = self.depth if depth is None else depth
        names = WORDS[:]
        many = n is None and depth == self.depth and self.seldom()
        if many:
            names += [w + '_' + w for w in WORDS]
            n = rng.randint(20, 60)
            depth = min(depth, 1)
        rng.shuffle(names)
        state = {'names': names, 'prior': [], 'fixed': fixed}
        fields = []
        if first:
            fields.append(first)
            names.remove(first['name'])
            state['prior'].append(first)
        n = n if n is not None else rng.randint(1, self.size) if not first else rng.randint(0, self.size - 1)
        while (n > 0 or not fields) and len(names) > 6:
            fields += self.field(state, depth)
            n -= 1
        spec = {'name': self.fresh(), 'fields': fields}
        if ctx and rng.random() < 0.12:
            spec['ctx'] = {'int_repr_format': rng.choice(['0x%x', '%03d', '%d']), 'mode': rng.randint(0, 2)}
        if nonzero and M.bounds(spec)[0] == 0:
            spec['fields'].insert(0, {'k': 'pad', 'size': 1, 'char': b'\0'})
        return spec

    def name(self, state):
        return state['names'].pop()

    def choose(self, options):
        options = [(k, w * self.weights.get(k, 1)) for k, w in options]
        r = self.rng.random() * sum(w for _, w in options)
        for k, w in options:
            r -= w
            if r < 0:
                return k
        return options[0][0]

    def field(self, state, depth):
        """One declaration, possibly preceded by fields that it needs."""
        rng = self.rng
        kind = self.choose([('f', 60), ('const', 8), ('pad', 5), ('bits', 10), ('pos', 5)] +
                           ([('lazy', 6)] if not state.get('lazy') else []) + ([('opt', 9)] if not state['fixed'] else []))
        if kind == 'pad':
            return [{'k': 'pad', 'size': rng.choice((0, 1, 2, 5)) if not self.seldom() else rng.randint(30, 700), 'char': rng.choice((b'\0', b'\xff', b'x'))}]
        if kind == 'bits':
            return [self.bits(state)]
        if kind == 'pos':
            return [self.pos(state)]
        if kind == 'lazy':
            inner = dict(state, fixed=True, lazy=True)
            fields = []
            for _ in range(rng.randint(1, 4) if not self.seldom() or len(inner['names']) < 60 else rng.randint(33, 40)):
                fields += self.field(inner, min(depth, 1))
            state['prior'] += inner['prior'][len(state['prior']):]
            return [{'k': 'lazy', 'fields': fields}]
        needs = []
        m = self.marshal(state, depth, needs)
        name = self.name(state)
        f = {'k': kind, 'name': name, 'm': m}
        if kind == 'const':
            if self.pointers(m) or not self.comparable(m):
                f['k'] = 'f'
            else:
                f['value'] = M.normal_marshal(m, self.value(m, M.Ctx({}, {}), const=True))
        elif kind == 'opt':
            f['pred'] = self.predicate(state)
        elif rng.random() < 0.12 and not self.pointers(m) and m[0] != 'pstr' and m[0] not in ('struct', 'sel', 'fsel'):
            f['default'] = self.value(m, M.Ctx({}, {}))
            if isinstance(f['default'], list) and ('struct' in repr(m) or 'sel' in repr(m)):
                del f['default']
        if f['k'] == 'f':
            state['prior'].append(f)
        return needs + [f]

    def pointers(self, m):
        """Whether m depends on other fields of the struct that it is in."""
        if m[0] == 'ptr' or (m[0] == 'fsel' and m[1][0] == 'attr') or (m[0] == 'sel' and m[1][0] == 'ptr'):
            return True
        if m[0] in ('struct', 'sel', 'fsel', 'map', 'num', 'pstr', 'fbuf'):
            return False
        return any(self.pointers(x) for x in m[1:] if isinstance(x, list) and x and isinstance(x[0], str))

    def comparable(self, m):
        """Whether == on the values of m compares what is in them: structs inside of arrays are compared by identity."""
        if m[0] == 'struct':
            return "['ctx', 'mode'" not in repr(m)         # those differ with the place that they are in
        while m[0] in ('farr', 'varr', 'sarr'):
            m = m[2]
        return m[0] not in ('struct', 'sel', 'fsel')

    def total_elsewhere(self, m):
        """Whether a byte total that m needs is in another field: that can be right for one array only."""
        while m[0] in ('farr', 'varr', 'sarr'):
            if m[0] == 'sarr' and m[1][0] == 'ptr':
                return True
            m = m[2]
        return False

    def predicate(self, state):
        rng = self.rng
        ints = [f for f in state['prior'] if f['m'][0] == 'num' and not M.is_float(f['m'][1]) and not f.get('dedicated')]
        if rng.random() < 0.1 or not state['prior']:
            return ['ctx', 'mode', rng.randint(0, 2)]
        if not ints:
            return ['set', rng.choice(state['prior'])['name']]
        f = rng.choice(ints)
        r = rng.random()
        low, high = M.limits(f['m'][1])
        if r < 0.4:
            return ['bit', f['name'], rng.randrange(8)]
        if r < 0.8:
            return ['gt', f['name'], rng.choice((0, 1, low, high // 2))]
        return ['eq', f['name'], rng.choice((0, 1, high))]

    def bits(self, state):
        rng = self.rng
        total = 8 * rng.randint(1, rng.choice((1, 2, 4, 12)) if not self.seldom() else 50)
        widths = (1, 1, 2, 3, 5, 7, 8, 9, 13, 16, 24, 33, 70) + ((65, 128, 129, 200, 256) if total > 96 else ())
        fields, left = [], total
        while left:
            n = min(left, rng.choice(widths))
            k = rng.random()
            if k < 0.15:
                x = {'k': 'bpad', 'size': n}
            elif k < 0.25:
                x = {'k': 'bconst', 'name': self.name(state), 'size': n, 'value': rng.getrandbits(n)}
            else:
                x = {'k': 'bflag' if n == 1 and rng.random() < 0.6 else 'bit', 'name': self.name(state), 'size': n}
                if rng.random() < 0.2:
                    x['default'] = rng.getrandbits(n)
            fields.append(x)
            left -= n
            if len(state['names']) < 8:
                fields.append({'k': 'bpad', 'size': left}) if left else None
                break
        return {'k': 'bits', 'fields': fields}

    def pos(self, state):
        rng = self.rng
        total = 8 * rng.randint(1, rng.choice((1, 2, 4)) if not self.seldom() else 40)
        cuts = sorted(set([0, total] + [rng.randint(0, total) for _ in range(rng.randint(0, 6))]))
        parts = [list(p) for p in zip(cuts, cuts[1:])]
        rng.shuffle(parts)
        fields = []
        end = max(parts, key=lambda p: p[1])
        while parts and len(state['names']) > 6:
            mine = [parts.pop() for _ in range(min(len(parts), rng.choice((1, 1, 2, 3))))]
            if rng.random() < 0.12 and end not in mine and (parts or fields):
                continue                 # a hole
            x = {'name': self.name(state), 'slices': mine}
            if rng.random() < 0.2:
                x['default'] = rng.getrandbits(sum(b - a for a, b in mine))
            fields.append(x)
        if not fields or max(b for x in fields for a, b in x['slices']) % 8:
            return {'k': 'pos', 'fields': fields + [{'name': self.name(state), 'slices': [[total - 1, total]] if not any(
                b == total for x in fields for a, b in x['slices']) else [[total, total + 8]]}]}
        return {'k': 'pos', 'fields': fields}

    def num(self, small=False):
        rng = self.rng
        if small:
            return ['num', rng.choice(UNSIGNED)]
        return ['num', rng.choice(INTS) if rng.random() < 0.85 else rng.choice(FLOATS)]

    def size_marshal(self, state, needs, total=False):
        rng = self.rng
        if rng.random() < 0.3 and not state['fixed']:
            small = [f for f in state['prior'] if f.get('small')]
            if small and rng.random() < 0.5 and not total:
                return ['ptr', rng.choice(small)['name']]
            f = {'k': 'f', 'name': self.name(state), 'm': ['num', rng.choice([n for n in UNSIGNED if not total or '8' != n[-1]])],
                 'small': 4}
            if total:
                f = dict(f, dedicated=True)
                del f['small']
            needs.append(f)
            if not total:
                state['prior'].append(f)
            return ['ptr', f['name']]
        if rng.random() < 0.12:
            return ['num', rng.choice([n for n in INTS if n[0] == 'S'])]
        if total:
            return ['num', rng.choice([n for n in UNSIGNED if n[-1] != '8'])]
        return ['num', rng.choice(UNSIGNED[:] + [n for n in UNSIGNED if n[-1] == '8'])]

    def pad_and_dir(self):
        rng = self.rng
        if rng.random() < 0.5:
            return [b'\0', 'right']
        return [rng.choice((b'\0', b' ', b'x', b' \0', b'ab')), rng.choice(('right', 'left', 'both', 'none', 'right'))]

    def length(self, usual):
        if self.seldom():
            return self.rng.choice((self.rng.randint(30, 300), self.rng.randint(250, 1100), 4200))
        return self.rng.choice(usual)

    def room(self, m):
        """Seldom, a length much more than usual which the size field m can hold; or None."""
        if not self.seldom():
            return None
        return self.rng.randint(20, min(M.limits(m[1])[1], self.rng.choice((300, 1500, 5000))))

    def marshal(self, state, depth, needs):
        rng = self.rng
        options = [('num', 40), ('pstr', 8), ('fbuf', 4), ('map', 5)]
        if not state['fixed']:
            options += [('vstr', 7), ('vbuf', 5)]
        if depth:
            options += [('farr', 6), ('struct', 8)]
            if not state['fixed']:
                options += [('varr', 8), ('sarr', 5), ('sel', 5), ('fsel', 5)]
        op = self.choose(options)
        if op == 'num':
            return self.num()
        if op == 'pstr':
            return ['pstr', self.length((0, 1, 3, 8, 20))] + self.pad_and_dir()
        if op == 'fbuf':
            return ['fbuf', self.length((0, 1, 2, 5, 16))]
        if op == 'vstr':
            return ['vstr', self.size_marshal(state, needs)] + self.pad_and_dir()
        if op == 'vbuf':
            return ['vbuf', self.size_marshal(state, needs)]
        if op == 'map':
            return self.mapping()
        if op == 'farr':
            more, known = [], len(state['prior'])
            m = self.marshal(dict(state), depth - 1, more)
            if self.total_elsewhere(m):
                del state['prior'][known:]
                return ['farr', 2, self.num()]
            needs += more
            return ['farr', rng.choice((0, 1, 2, 3)) if m[0] != 'num' or not self.seldom() else rng.randint(30, 400), m]
        if op in ('varr', 'sarr'):
            size = self.size_marshal(state, needs, op == 'sarr')
            for _ in range(20):
                more, known = [], len(state['prior'])
                inner = dict(state, fixed=state['fixed'])
                m = self.marshal(inner, depth - 1, more)
                if M.marshal_bounds(m)[0] > 0 and not (op == 'sarr' and self.pointers(m)) and not self.total_elsewhere(m):
                    needs += more
                    return [op, size, m]
                del state['prior'][known:]
            return [op, size, ['num', 'UBInt16']]
        if op == 'struct':
            return ['struct', self.spec(depth - 1, n=rng.randint(1, 3), fixed=state['fixed'])]
        if op == 'sel' and rng.random() < 0.25 and not state.get('lazy'):
            # the key is in another field
            t = rng.choice(INTS)
            keys = self.keys(['num', t], rng.randint(1, 4))
            f = {'k': 'f', 'name': self.name(state), 'm': ['num', t], 'among': keys}
            needs.append(f)
            state['prior'].append(f)
            keys, others = (keys[:-1], keys[-1:]) if len(keys) > 1 and rng.random() < 0.5 else (keys, [])
            return ['sel', ['ptr', f['name']], [[k, self.spec(depth - 1, n=rng.randint(1, 3), nonzero=True)] for k in keys],
                    self.spec(depth - 1, n=rng.randint(1, 3), nonzero=True) if others else None]
        if op == 'sel':
            km = rng.choice([['num', rng.choice(INTS)], ['num', 'UBInt8'], ['pstr', rng.choice((1, 2, 4)), b'\0', 'right'],
                             self.mapping(), ['vstr', ['num', 'UBInt8'], b'\0', 'right']])
            keys = self.keys(km, rng.randint(1, 3) + 1)
            other = keys.pop() if len(keys) > 1 else None
            return ['sel', km, [[k, self.tagged(km, k, depth)] for k in keys],
                    self.tagged(km, other, depth) if other is not None and rng.random() < 0.5 else None]
        # selection by function
        if rng.random() < 0.4 and not state.get('lazy'):
            t = rng.choice(INTS)
            keys = self.keys(['num', t], rng.randint(1, 3))
            f = {'k': 'f', 'name': self.name(state), 'm': ['num', t], 'among': keys}
            needs.append(f)
            state['prior'].append(f)
            return ['fsel', ['attr', f['name']], [[k, self.spec(depth - 1, n=rng.randint(1, 3), nonzero=True)] for k in keys]]
        t = rng.choice(INTS)
        return ['fsel', ['peek', t], [[k, self.tagged(['num', t], k, depth)] for k in self.keys(['num', t], rng.randint(1, 3))]]

    def mapping(self):
        rng = self.rng
        m = self.num() if rng.random() < 0.7 else ['pstr', 3, b'\0', 'right']
        while m[0] == 'num' and M.is_float(m[1]):
            m = self.num()
        keys = rng.sample(['one', 'two', 'three', 4, 5, None and 6 or 6, b'seven', (8, 9)], rng.randint(1, 5))
        values = self.keys(m, len(keys))
        return ['map', [[k, v] for k, v in zip(keys, values)], m]

    def keys(self, m, n):
        out = []
        for _ in range(200):
            if m[0] == 'map':
                k = self.rng.choice(m[1])[0]
            else:
                k = M.normal_marshal(m, self.value(m, M.Ctx({}, {}), const=True))
            if k not in out:
                out.append(k)
            if len(out) == n:
                break
        return out

    def tagged(self, km, key, depth):
        rng = self.rng
        if rng.random() < 0.5:
            first = {'k': 'const', 'name': 'type', 'm': km, 'value': key}
        else:
            first = {'k': 'f', 'name': 'type', 'm': km, 'force': key}
        return self.spec(depth - 1, first=first, n=rng.randint(0, 3))

    # -- values

    def values(self, spec, ctx=M.TOP):
        values = {}
        ctx = ctx.enter(spec, values)
        self.field_values(spec['fields'], values, ctx)
        return values

    def field_values(self, fields, values, ctx):
        for f in fields:
            k = f['k'] if 'k' in f else 'posbit'
            if k in ('bits', 'pos', 'lazy'):
                self.field_values(f['fields'], values, ctx)
            elif k in ('pad', 'bpad', 'const', 'bconst'):
                if 'value' in f:
                    values[f['name']] = f['value']
            elif k in ('bit', 'bflag', 'posbit'):
                n = f['size'] if 'size' in f else sum(b - a for a, b in f['slices'])
                values[f['name']] = self.rng.choice((0, 1, (1 << n) - 1, self.rng.getrandbits(n), self.rng.getrandbits(n))) & (
                    (1 << n) - 1)
            elif k == 'opt':
                values[f['name']] = self.value(f['m'], ctx) if M.predicate(f['pred'], ctx) else None
            elif 'force' in f:
                values[f['name']] = f['force']
            elif 'among' in f:
                values[f['name']] = self.rng.choice(f['among'])
            elif 'small' in f:
                values[f['name']] = self.rng.randint(0, f['small'])
            elif f.get('dedicated'):
                values[f['name']] = 0
            else:
                values[f['name']] = self.value(f['m'], ctx)

    def value(self, m, ctx, const=False):
        rng = self.rng
        op = m[0]
        if op == 'num':
            if M.is_float(m[1]):
                v = rng.choice((0.0, 1.0, -2.5, 0.1, 1e30, rng.uniform(-1000, 1000), math.ldexp(rng.random(), rng.randint(-30, 30))) + (
                    () if const else (float('inf'), -0.0)))
                return pystruct.unpack('>f', pystruct.pack('>f', v))[0] if m[1][-2:] == '32' else v
            low, high = M.limits(m[1])
            w = M.bits_of(m[1])
            return rng.choice((low, high, 0, 1, rng.randint(low, high), rng.randint(low, high),
                               rng.randint(0, min(high, 300)), max(low, -rng.getrandbits(w - 1)), 1 << rng.randrange(w - 1)))
        if op in ('pstr', 'fbuf'):
            n = m[1]
            if op == 'fbuf' or m[3] == 'none':
                return self.content(n)
            return M.strip(self.content(rng.choice((n, n, rng.randint(0, n)))), m[2], m[3]) if rng.random() < 0.8 else \
                self.content(rng.randint(0, n))
        if op in ('vstr', 'vbuf'):
            if m[1][0] == 'ptr':
                n = ctx.values[m[1][1]]
                return b'Q' * n if op == 'vstr' else self.content(n)
            return self.content(self.room(m[1]) or rng.choice((0, 1, rng.randint(0, 12), rng.randint(0, 12), 127 if m[1][1][-1] == '8' else 200)))
        if op == 'farr':
            return self.repeated(m, [self.value(m[2], ctx, const) for _ in range(m[1])])
        if op == 'varr':
            n = ctx.values[m[1][1]] if m[1][0] == 'ptr' else (m[2][0] == 'num' and self.room(m[1]) or rng.choice((0, 1, 2, 3)))
            return self.repeated(m, [self.value(m[2], ctx, const) for _ in range(n)])
        if op == 'sarr':
            out = [self.value(m[2], ctx, const) for _ in range(m[1][0] == m[2][0] == 'num' and self.room(m[1]) or rng.choice((0, 1, 2, 3)))]
            out = self.repeated(m, out)
            while out:
                n = sum(len(M.encode_marshal(m[2], x, ctx)) for x in out)
                most = M.limits(m[1][1])[1] if m[1][0] == 'num' else 65535
                if n <= most:
                    break
                out.pop()
            if m[1][0] == 'ptr':
                ctx.values[m[1][1]] = sum(len(M.encode_marshal(m[2], x, ctx)) for x in out)
            return out
        if op == 'map':
            return rng.choice(m[1])[0]
        if op == 'struct':
            return self.values(m[1], ctx)
        if op == 'sel' and m[1][0] == 'ptr':
            spec = ([s for k, s in m[2] if k == ctx.values[m[1][1]]] or [m[3]])[0]
        elif op == 'fsel' and m[1][0] == 'attr':
            spec = [s for k, s in m[2] if k == ctx.values[m[1][1]]][0]
        else:
            spec = rng.choice(M.choices(m))
        return [spec['name'], self.values(spec, ctx)]

    def repeated(self, m, values):
        """Sometimes the same element several times."""
        if len(values) > 1 and m[2][0] in ('struct', 'sel', 'fsel') and self.rng.random() < 0.5:
            values = [values[0]] * len(values) if self.rng.random() < 0.5 else values[:-1] + values[:1]
        return values

    def content(self, n):
        rng = self.rng
        style = rng.random()
        if style < 0.3:
            return bytes(bytearray(rng.choice((0, 32, 97, 98, 120)) for _ in range(n)))
        return bytes(bytearray(rng.getrandbits(8) for _ in range(n)))


def mutate(rng, data):
    """A hostile variant of a record."""
    data = bytearray(data)
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.3 and data:
            del data[rng.randrange(len(data)):]
        elif r < 0.5:
            data += bytearray(rng.getrandbits(8) for _ in range(rng.randint(1, 9)))
        elif r < 0.8 and data:
            i = rng.randrange(len(data))
            data[i] = rng.choice((0, 255, 128, 127, 1, rng.getrandbits(8), data[i] ^ (1 << rng.randrange(8))))
        elif data:
            i = rng.randrange(len(data))
            del data[i:i + rng.randint(1, 3)]
    return bytes(data)
