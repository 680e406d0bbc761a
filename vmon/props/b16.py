"""Expressions over references are ordinary Python arithmetic on the values they stand for."""
import json

from vmon.core import GeneratorError, same

ID = 'B16'
RULE = ("classes with 2-5 numbers, a text, a list, plain attributes and traced methods, and 1-4 fields whose value, condition, "
        "position or element count is a random expression (every operator on either side, comparisons, min/max, len, method "
        "calls with arguments, shared subexpressions, forward references, sizes); packed, sized, unpacked and packed again "
        "with other values; compared with the same expression evaluated by Python on plain values")
CASES = {'quick': 4500, 'thorough': 300000}
REQUIRE = {'long_expressions': 70, 'expressions': 6700, 'packs': 4700, 'unpacks': 4300, 'divisions': 1300, 'floor_divisions': 1500, 'comparisons': 2300,
           'method_calls': 4000, 'shared_nodes': 500, 'errors': 600, 'positions': 1000, 'conditions_true': 900,
           'conditions_false': 700, 'counts': 700, 'not_called': 300, 'reflected': 1500, 'buffer_lengths': 200, 'objects_as_arguments': 400}
ASSUMPTIONS = ["methods used in expressions are deterministic"]

ARITH = ('+', '-', '*', '/', '//')
COMPARE = ('<', '<=', '>', '>=', '==', '!=')


# -- cases -----------------------------------------------------------------------------------------

class _Gen(object):
    def __init__(self, rng, where):
        self.rng = rng
        self.where = where            # 'pack', 'unpack' or 'both'

    def leaf(self, whole):
        r = self.rng.random()
        if r < 0.3:
            return ['f', self.rng.choice(self.nums)]
        if r < 0.42:
            return ['self', self.rng.choice(self.nums)]
        if r < 0.5:
            return ['attr', self.rng.choice(['five', 'minus'] + ([] if whole else ['half']))]
        if r < 0.58:
            return ['len', self.rng.choice(['text', 'items', 'data']), self.rng.randint(0, 2)]
        if r < 0.62 and self.where == 'unpack':
            return ['ibl']
        if r < 0.66:
            return ['after', self.rng.choice(self.nums)]
        if r < 0.69:
            return ['total']
        if r < 0.73 and not whole:
            return ['f', 'real']
        if r < 0.8:
            return ['member', self.rng.randint(0, 2)]
        return self.rng.choice([0, 1, 2, 3, 7, 10, 255, -1, -4] + ([] if whole else [0.5, 2.0, -0.25]))

    def argument(self, x):
        r = self.rng.random()
        if r < 0.5 and x is not None:
            return x
        if r < 0.7:
            return [self.rng.choice(['f', 'self']), self.rng.choice(['text', 'items'])]
        return ['obj', self.rng.choice([None, False, True, 0, 0.0, '', 'abc', b'', b'x', [], [1, 2], {}])]

    def pair(self, depth, whole, n=2):
        while True:
            out = [self.expr(depth - 1, whole) for _ in range(n)]
            if any(isinstance(x, list) for x in out):
                return out

    def expr(self, depth, whole=False):
        rng = self.rng
        if depth == 0:
            return self.leaf(whole)
        r = rng.random()
        if r < 0.52:
            return ['op', rng.choice([o for o in ARITH if o != '/' or not whole])] + self.pair(depth, whole)
        if r < 0.6:
            return ['neg', self.pair(depth, whole, 1)[0]]
        if r < 0.7:
            return [rng.choice(['min', 'max']), [self.expr(depth - 1, whole) for _ in range(rng.randint(2, 3))]]
        if r < 0.78:
            return ['op', rng.choice(COMPARE)] + self.pair(depth, whole)
        if r < 0.88:
            args = [self.expr(depth - 1, whole) for _ in range(rng.randint(0, 2))]
            kw = dict((k, self.expr(max(0, depth - 2), whole)) for k in ('p', 'q') if rng.random() < 0.3)
            if rng.random() < 0.15:
                if rng.random() < 0.6:
                    args = []
                args += [self.leaf(whole) for _ in range(rng.choice((0, 0, 2, 3)))]
                kw = dict((k, self.leaf(whole)) for k in ('p', 'q', 'r', 'size', 'zz') if rng.random() < 0.6)
            if rng.random() < 0.25:
                # Arguments of any type, nothing among them.
                args = [self.argument(x) for x in args]
                kw = dict((k, self.argument(x)) for k, x in kw.items())
                for k in ('flag', 'name'):
                    if rng.random() < 0.4:
                        kw[k] = self.argument(None)
            return ['call', rng.randint(0, 1), args, kw]
        if r < 0.97 and self.shared:
            return ['shared', rng.randrange(len(self.shared))]
        return self.leaf(whole)


    def long(self, e, whole):
        """e inside very many operations, which don't make the number much larger."""
        rng = self.rng
        for _ in range(rng.choice((20, 45, 70))):
            other = self.leaf(whole) if rng.random() < 0.5 else rng.choice([1, 2, 3])
            r = rng.random()
            if r < 0.5:
                e = ['op', '-', e, other] if rng.random() < 0.5 else ['op', '-', other, e]
            elif r < 0.7:
                e = ['op', '+', e, other] if rng.random() < 0.5 else ['op', '+', other, e]
            elif r < 0.8:
                e = ['op', '//', e, rng.choice([1, 2, 3])]
            elif r < 0.9:
                e = ['neg', e]
            else:
                e = [rng.choice(['min', 'max']), [e, other] if rng.random() < 0.5 else [other, e]]
        return e


def generate(rng, tier):
    case = {'nums': {}, 'shared': [], 'fields': [], 'order': None, 'rounds': []}
    n = rng.randint(2, 5)
    case['nums'] = ['n%d' % i for i in range(n)]
    where = rng.choice(['pack', 'unpack', 'both'])
    g = _Gen(rng, where)
    g.nums, g.shared = case['nums'], []
    deep = 3 if tier == 'quick' else 5
    for _ in range(rng.choice((0, 0, 1, 2))):
        whole = rng.random() < 0.6
        if not whole:
            continue
        e = g.expr(rng.randint(1, 2), True)
        if isinstance(e, list):
            g.shared.append(e)
    case['shared'] = list(g.shared)
    for i in range(rng.randint(1, 4)):
        kind = rng.choice(['value', 'value', 'value', 'cond', 'pos', 'count'])
        whole = kind in ('pos', 'count')
        e = g.expr(rng.randint(1, deep), whole)
        if kind == 'cond' and rng.random() < 0.7:
            e = ['op', rng.choice(COMPARE)] + g.pair(rng.randint(1, 3), False)
        while not isinstance(e, list):
            e = g.expr(deep, whole)
        if i == 0 and rng.random() < 0.03:
            e = g.long(e, whole)
            case['long'] = True
        case['fields'].append({'kind': kind, 'e': e, 'name': 'x%d' % i})
    case['where'] = where
    case['order'] = rng.random()
    case['names'] = [rng.choice('abmyz') + name for name in case['nums']]
    for _ in range(2):
        case['rounds'].append({'nums': dict((m, rng.choice([0, 1, 2, rng.randint(0, 9), rng.randint(-9, 200)])) for m in case['nums']),
                               'real': rng.choice([0.0, 0.5, -2.25, 3.0, rng.randint(-99, 99) / 8.0]),
                               'text': 'abcdefgh'[:rng.randint(0, 8)], 'items': [rng.randint(0, 9) for _ in range(3)],
                               'data': bytes(bytearray(rng.getrandbits(8) for _ in range(rng.randint(0, 5)))),
                               'five': rng.choice([5, 0, 6]), 'tail': rng.randint(0, 3)})
    return case


def nontrivial(case):
    return any(isinstance(f['e'], list) and f['e'][0] in ('op', 'neg', 'min', 'max', 'call', 'shared') for f in case['fields'])


# -- the oracle: Python on plain values ------------------------------------------------------------

NUM_AT, REAL_AT, TEXT_AT, ITEMS_AT, DATA_AT, X_AT, X_ROOM = 0, 20, 28, 36, 39, 44, 64


class Undefined(Exception):
    pass


class World(object):
    """The plain values, and the calls that evaluating an expression makes."""

    def __init__(self, case, v, phase, total, buffer_length):
        self.case, self.v, self.phase, self.total, self.buffer_length = case, v, phase, total, buffer_length
        self.cache = {}
        self.calls = []

    def eval(self, e):
        if not isinstance(e, list):
            return e
        op = e[0]
        if op in ('f', 'self'):
            return self.v[e[1]] if e[1] in ('real', 'text', 'items') else self.v['nums'][e[1]]
        if op == 'obj':
            return e[1]
        if op == 'attr':
            return {'five': self.v['five'], 'minus': -3, 'half': 0.5}[e[1]]
        if op == 'len':
            return len(self.v[e[1]])
        if op == 'ibl':
            return self.buffer_length
        if op == 'total':
            return self.total
        if op == 'after':
            return (self.case['nums'].index(e[1]) + 1) * 4
        if op == 'member':
            self.calls.append(('member', e[1], (), {}))
            return member_value(e[1], self.v)
        if op == 'neg':
            return -self.eval(e[1])
        if op in ('min', 'max'):
            return (min if op == 'min' else max)([self.eval(x) for x in e[1]])
        if op == 'call':
            args = tuple(self.eval(x) for x in e[2])
            kw = dict((k, self.eval(x)) for k, x in sorted(e[3].items()))
            self.calls.append(('call', e[1], args, kw))
            return call_value(e[1], args, kw)
        if op == 'shared':
            if e[1] not in self.cache:
                self.cache[e[1]] = self.eval(self.case['shared'][e[1]])
            return self.cache[e[1]]
        a, b = self.eval(e[2]), self.eval(e[3])
        return apply(e[1], a, b)


def apply(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    return a == b if op == '==' else a != b


def member_value(k, v):
    return [7, v['five'] - 2, v['five'] * 2][k]


def call_value(k, args, kw):
    total = 3
    for a in args:
        total = total * 2 + weight(a)
    for name in sorted(kw):
        total = total * 3 - weight(kw[name])
    return total if k == 0 else len(args) - 2


def weight(x):
    return x if isinstance(x, (int, float)) and not isinstance(x, bool) else len(repr(x))


def clamp(value, top):
    return max(0, min(value, top))


# -- the real class --------------------------------------------------------------------------------

def numeric(e):
    """Is the reference built for e numeric by itself?"""
    return not isinstance(e, list) or e[0] not in ('call', 'member', 'self', 'attr')


class Maker(object):
    def __init__(self, case, obs):
        from infi.instruct import buffer as B
        self.B, self.case, self.obs = B, case, obs
        self.log = []
        self.fields = {}
        self.shared = {}
        self.methods = None

    def members(self):
        out = []
        for k in range(3):
            def f(obj, k=k):
                self.log.append(('member', k, (), {}))
                return [7, obj.five - 2, obj.five * 2][k]
            out.append(f)
        return out

    def ref(self, e):
        """A reference, or a number, for e; numeric if it can be."""
        B = self.B
        if not isinstance(e, list):
            return e
        op = e[0]
        if op == 'f':
            return self.fields[e[1]]
        if op == 'obj':
            self.obs.hit('objects_as_arguments')
            return e[1]
        if op == 'self':
            x = getattr(B.self_ref, e[1])
            return x if e[1] in ('text', 'items') else B.num_ref(x)
        if op == 'attr':
            return B.num_ref(getattr(B.self_ref, e[1]))
        if op == 'len':
            return B.len_ref([self.fields[e[1]], e[1], getattr(B.self_ref, e[1])][e[2]])
        if op == 'ibl':
            return B.input_buffer_length
        if op == 'total':
            return B.total_size
        if op == 'after':
            return B.after_ref(self.fields[e[1]])
        if op == 'member':
            return B.num_ref(B.member_func_ref(self.member_funcs[e[1]]))
        if op == 'neg':
            x = self.ref(e[1])
            return -x
        if op in ('min', 'max'):
            return (B.min_ref if op == 'min' else B.max_ref)(*[self.ref(x) for x in e[1]])
        if op == 'call':
            # The same reference to a method may be called several times.
            if self.methods is None or self.case['order'] < 0.5:
                self.methods = [B.self_ref.method0, B.self_ref.method1]
            method = self.methods[e[1]]
            return B.num_ref(method(*[self.ref(x) for x in e[2]], **dict((k, self.ref(x)) for k, x in e[3].items())))
        if op == 'shared':
            if e[1] not in self.shared:
                self.shared[e[1]] = self.ref(self.case['shared'][e[1]])
            return self.shared[e[1]]
        a, b = self.ref(e[2]), self.ref(e[3])
        if not isinstance(e[2], list) and isinstance(e[3], list):
            self.obs.hit('reflected')
        return apply(e[1], a, b)

    def build(self):
        B, case = self.B, self.case
        from infi.instruct.buffer import Buffer
        self.member_funcs = self.members()
        self.attrs = {}
        for i, n in enumerate(case['nums']):
            self.fields[n] = self.attrs[n] = B.int_field(endian='big', where=B.bytes_ref[NUM_AT + 4 * i:NUM_AT + 4 * i + 4])
        self.fields['real'] = self.attrs['real'] = B.float_field(where=B.bytes_ref[REAL_AT:REAL_AT + 8])
        self.fields['text'] = self.attrs['text'] = B.str_field(where=B.bytes_ref[TEXT_AT:TEXT_AT + 8])
        self.fields['items'] = self.attrs['items'] = B.list_field(B.uint8, n=3, where=B.bytes_ref[ITEMS_AT:ITEMS_AT + 3])
        self.fields['data'] = self.attrs['data'] = B.json_field(where=B.bytes_ref[DATA_AT:X_AT])
        for i, f in enumerate(case['fields']):
            at = X_AT + i * X_ROOM
            here = B.bytes_ref[at:at + X_ROOM]
            e = self.ref(f['e'])
            k = f['kind']
            if k == 'value':
                options = {}
                if case['where'] in ('pack', 'both'):
                    options['set_before_pack'] = e
                if case['where'] in ('unpack', 'both'):
                    options['set_after_unpack'] = e
                x = B.json_field(where=here, **options)
            elif k == 'cond':
                x = B.json_field(where=here, **({'pack_if': e} if case['where'] == 'pack' else {'unpack_if': e} if case['where'] ==
                                                'unpack' else {'pack_if': e, 'unpack_if': e}))
            elif k == 'pos':
                p = at + B.max_ref(0, B.min_ref(e, X_ROOM - 1))
                if case['where'] == 'both':
                    x = B.uint_field(where=B.bytes_ref[p:p + 1])
                else:
                    fixed = B.bytes_ref[at:at + 1]
                    x = B.uint_field(where_when_pack=B.bytes_ref[p:p + 1] if case['where'] == 'pack' else fixed,
                                     where_when_unpack=B.bytes_ref[p:p + 1] if case['where'] == 'unpack' else fixed)
            else:
                x = B.list_field(B.uint8, n=B.max_ref(0, B.min_ref(e, X_ROOM)), where=here)
            self.attrs[f['name']] = x
        log = self.log

        def method0(self, *args, **kw):
            log.append(('call', 0, args, kw))
            return call_value(0, args, kw)

        def method1(self, *args, **kw):
            log.append(('call', 1, args, kw))
            return call_value(1, args, kw)

        members = list(self.attrs.items())
        import random
        random.Random(case['order']).shuffle(members)
        attrs = dict(members)
        attrs.update(method0=method0, method1=method1, minus=-3, half=0.5, five=5,
                     byte_size=X_AT + X_ROOM * len(case['fields']))
        return type('E', (Buffer,), attrs)


def is_constant(e):
    return not isinstance(e, list)


def contains(e, op):
    if isinstance(e, dict):
        return any(contains(x, op) for x in e.values())
    if not isinstance(e, list) or e and e[0] == 'obj':
        return False
    return bool(e) and e[0] == op or any(contains(x, op) for x in e)


def usable(e):
    """Every operator has a reference on one side; functions of constants are constants."""
    if not isinstance(e, list):
        return True
    if e[0] == 'op':
        return (isinstance(e[2], list) or isinstance(e[3], list)) and usable(e[2]) and usable(e[3])
    if e[0] == 'neg':
        return isinstance(e[1], list) and usable(e[1])
    if e[0] in ('min', 'max'):
        return all(usable(x) for x in e[1])
    if e[0] == 'call':
        return all(usable(x) for x in e[2]) and all(usable(x) for x in e[3].values())
    return True


def features(case, e, obs):
    if isinstance(e, dict):
        for x in e.values():
            features(case, x, obs)
        return
    if not isinstance(e, list) or not e or e[0] == 'obj':
        return
    if e[0] == 'op':
        obs.hit('divisions' if e[1] == '/' else 'floor_divisions' if e[1] == '//' else 'comparisons' if e[1] in COMPARE else 'sums')
    if e[0] == 'shared':
        obs.hit('shared_nodes')
    if e[0] == 'ibl':
        obs.hit('buffer_lengths')
    for x in e:
        features(case, x, obs)


def evaluate(case, v, phase, total, buffer_length, which):
    """-> (values of the expressions of the fields evaluated, calls made, name of a failing field or None)."""
    w = World(case, v, phase, total, buffer_length)
    out, failing = {}, []
    for f in case['fields']:
        if f['name'] not in which:
            continue
        try:
            out[f['name']] = w.eval(f['e'])
        except (ZeroDivisionError, OverflowError, TypeError):
            failing.append(f['name'])
    return out, w.calls, failing


def counted(calls):
    out = {}
    for c in calls:
        k = repr((c[0], c[1], c[2], sorted(c[3].items())))
        out[k] = out.get(k, 0) + 1
    return out


def fits(f, value):
    if f['kind'] == 'value':
        return len(json.dumps(value)) <= X_ROOM and value == value and value not in (float('inf'), -float('inf'))
    if f['kind'] in ('pos', 'count'):
        return isinstance(value, int)
    return True


def image(case, v, xs):
    """The packed object: xs maps a field to (offset in its room, bytes)."""
    import struct
    out = bytearray(X_AT + X_ROOM * len(case['fields']))
    for i, n in enumerate(case['nums']):
        out[4 * i:4 * i + 4] = struct.pack('>l', v['nums'][n])
    out[REAL_AT:REAL_AT + 8] = struct.pack('=d', v['real'])
    out[TEXT_AT:TEXT_AT + 8] = v['text'].encode('ascii').ljust(8)
    out[ITEMS_AT:ITEMS_AT + 3] = bytes(bytearray(v['items']))
    out[DATA_AT:X_AT] = b'"%s"' % (b'...'[:min(3, len(v['data']))]) + b' ' * (3 - min(3, len(v['data'])))
    for i, f in enumerate(case['fields']):
        if f['name'] in xs:
            offset, data = xs[f['name']]
            at = X_AT + i * X_ROOM + offset
            out[at:at + len(data)] = data
    return bytes(out)


def check(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    if not all(usable(f['e']) for f in case['fields']) or not all(usable(e) for e in case['shared']):
        # An operator between two plain numbers is not an expression over references.
        case = dict(case, fields=[f for f in case['fields'] if usable(f['e'])])
        if not case['fields'] or not all(usable(e) for e in case['shared']):
            return
    maker = Maker(case, obs)
    cls = maker.build()
    total = X_AT + X_ROOM * len(case['fields'])
    if case.get('long'):
        obs.hit('long_expressions')
    for f in case['fields']:
        features(case, f['e'], obs)
        obs.hit('expressions')
    for v in case['rounds']:
        v = dict(v, data='...'[:min(3, len(v['data']))].encode('ascii'))
        one_round(case, cls, maker, v, total, obs, InstructBufferError)


def one_round(case, cls, maker, v, total, obs, InstructBufferError):
    where = case['where']
    obj = cls(text=v['text'], items=list(v['items']), real=v['real'], data=v['data'].decode('ascii'), **v['nums'])
    obj.five = v['five']
    for f in case['fields']:
        setattr(obj, f['name'], {'value': 'keep', 'cond': 'maybe', 'pos': 201, 'count': [3] * X_ROOM}[f['kind']])
    del maker.log[:]
    packing = where in ('pack', 'both')
    which = [f['name'] for f in case['fields'] if f['kind'] != 'count'] if packing else []
    values, calls, failing = evaluate(case, v, 'pack', total, None, which)
    byname = dict((f['name'], f) for f in case['fields'])
    if any(not fits(byname[n], x) for n, x in values.items()) or any(contains(byname[n]['e'], 'ibl') for n in which):
        return
    try:
        got, err = bytes(obj.pack()), None
    except InstructBufferError as e:
        got, err = None, e
    if failing:
        obs.hit('errors')
        obs.expect(err is not None, 'accepted', "packed %r although the expression of %s has no value (%r)", got, failing, case)
        obs.expect(err.attr_name in failing, 'wrong-field', "the error names %r instead of one of %s", err.attr_name, failing)
        obs.expect(err.clazz is cls, 'wrong-class', "the error names %r", err.clazz)
        return
    obs.hit('packs')
    obs.expect(err is None, 'rejected', "not packed: %s", err)
    xs = {}
    for f in case['fields']:
        n = f['name']
        x = values.get(n)
        if f['kind'] == 'value':
            if packing:
                obs.expect(same(getattr(obj, n), x) and type(getattr(obj, n)) is type(x), 'value',
                           "%s is %r after packing; the expression %r is %r for %r", n, getattr(obj, n), f['e'], x, v)
            xs[n] = (0, json.dumps(x if packing else 'keep').encode('ascii').ljust(X_ROOM))
        elif f['kind'] == 'cond':
            if not packing or x:
                xs[n] = (0, b'"maybe"'.ljust(X_ROOM))
            if packing:
                obs.hit('conditions_true' if x else 'conditions_false')
        elif f['kind'] == 'pos':
            xs[n] = (clamp(x, X_ROOM - 1) if packing else 0, b'\xc9')
            obs.hit('positions')
        else:
            xs[n] = (0, b'\3' * X_ROOM)
    want = image(case, v, xs)
    obs.equal(got, want, 'packed', "packing %r with %r", case, v)
    obs.equal(counted(maker.log), counted(calls), 'calls', "calls made while packing %r with %r", case['fields'], v)
    obs.hit('method_calls', len(calls))
    if not packing:
        obs.hit('not_called')
    # Unpacking.
    data = bytearray(want)
    tail = b'\xaa' * v['tail']
    which = [f['name'] for f in case['fields'] if f['kind'] == 'count' or where in ('unpack', 'both')]
    length = len(data) + len(tail)
    values, calls, failing = evaluate(case, v, 'unpack', total, length, which)
    if any(not fits(byname[n], x) for n, x in values.items()):
        return
    for i, f in enumerate(case['fields']):
        # Each field is where unpacking expects it.
        at = X_AT + i * X_ROOM
        if f['kind'] == 'pos':
            data[at:at + X_ROOM] = bytearray(X_ROOM)
            if f['name'] in values or not failing:
                data[at + (clamp(values[f['name']], X_ROOM - 1) if f['name'] in values else 0)] = 77
        elif f['kind'] == 'cond' and not (f['name'] in values and not values[f['name']]):
            data[at:at + X_ROOM] = b'"there"'.ljust(X_ROOM)
        elif f['kind'] == 'count':
            data[at:at + X_ROOM] = bytearray(range(X_ROOM))
    back = cls()
    back.five = v['five']
    del maker.log[:]
    try:
        size, err = back.unpack(bytes(data) + tail), None
    except InstructBufferError as e:
        size, err = None, e
    if failing:
        obs.hit('errors')
        obs.expect(err is not None, 'accepted', "unpacked although the expression of %s has no value (%r)", failing, case)
        obs.expect(err.attr_name in failing, 'wrong-field', "the error names %r instead of one of %s", err.attr_name, failing)
        return
    obs.hit('unpacks')
    obs.expect(err is None, 'rejected', "not unpacked: %s (%r)", err, case)
    obs.equal(float(size), float(total), 'size', "the size of %r", case)
    for f in case['fields']:
        n = f['name']
        x = values.get(n)
        got = getattr(back, n)
        if f['kind'] == 'value':
            if n in values:
                obs.expect(same(got, x) and type(got) is type(x), 'value',
                           "%s is %r after unpacking; the expression %r is %r for %r", n, got, f['e'], x, v)
        elif f['kind'] == 'cond':
            obs.expect(got == (None if n in values and not x else 'there'), 'condition', "%s is %r; its condition %r is %r for %r", n,
                       got, f['e'], x, v)
            if n in values:
                obs.hit('conditions_true' if x else 'conditions_false')
        elif f['kind'] == 'pos':
            obs.equal(got, 77, 'position', "%s at %r (%r) for %r", n, f['e'], x, v)
            obs.hit('positions')
        else:
            obs.equal(got, list(range(clamp(x, X_ROOM))), 'count', "%s with %r (%r) elements for %r", n, f['e'], x, v)
            obs.hit('counts')
    obs.equal(counted(maker.log), counted(calls), 'calls', "calls made while unpacking %r with %r", case['fields'], v)
    obs.hit('method_calls', len(calls))
    for name, x in [('text', v['text']), ('items', v['items']), ('real', v['real'])] + list(v['nums'].items()):
        obs.equal(getattr(back, name), x, 'other-field', "%s of %r", name, case)
