"""Conditional fields: present exactly when their condition says so."""
import copy

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B10'
RULE = ("classes with 1-5 conditional fields: six comparison operators, field truth, arithmetic on both sides, constants, "
        "different conditions for packing and unpacking, conditions on lists, texts and other expressions, fixed and "
        "moving positions, inside nested objects and list elements; absent fields hold garbage and their input may be "
        "missing; enumerated: every operator with every pair of small operands, both ways round, signed and unsigned")
CASES = {'quick': 1500, 'thorough': 100000}
REQUIRE = {'images_compared': 2500, 'decodes_compared': 2500, 'absent_when_packed': 2500, 'absent_when_unpacked': 2500,
           'present_when_packed': 2500, 'garbage_in_absent': 500, 'different_conditions': 400, 'ordered_after_conditional': 60, 'absent_input_missing': 150,
           'moving_positions': 150, 'enumerated_cases': 300, 'nested_conditional': 300, 'reused_objects': 1500,
           'derived_absent': 80, 'absent_with_default': 800, 'conditions_on_presence': 500}
OPS = ('<', '<=', '>', '>=', '==', '!=')


def leaf_uint(name, at, width=8, signed=False):
    return {'kind': 'int', 'signed': signed, 'endian': 'big', 'api': 0, 'width': width, 'name': name,
            'w': ['sl', at, at + width // 8]}


def exhaustive(tier):
    lo, hi = (-2, 3) if tier == 'quick' else (-4, 5)
    for op in OPS:
        for const in range(lo, hi):
            for form in ('field', 'self', 'swapped', 'fields', 'arith'):
                flag = leaf_uint('flag', 0, 8, True)
                other = leaf_uint('other', 1, 8, True)
                left = ['self' if form == 'self' else 'f', 'flag']
                cond = ['cmp', op, left, const]
                if form == 'swapped':
                    cond = ['cmp', op, const, left]
                elif form == 'fields':
                    cond = ['cmp', op, left, ['f', 'other']]
                elif form == 'arith':
                    cond = ['cmp', op, ['-', left, ['f', 'other']], ['*', ['self', 'other'], 0]]
                item = leaf_uint('item', 2, 16)
                item['pif'] = item['uif'] = cond
                end = leaf_uint('end', 4)
                spec = {'name': 'X', 'fields': [flag, other, item, end], 'base': None}
                for v in range(lo, hi):
                    yield {'spec': spec, 'values': [{'flag': v, 'other': const, 'item': 0xABCD, 'end': 0x5A}],
                           'garbage': [None], 'inputs': [bytes(bytearray([v & 255, const & 255, 0x12, 0x34, 7])),
                                                        bytes(bytearray([v & 255, const & 255, 0xff, 0xff, 0]))]}


def condition(rng, g, flags, others):
    r = rng.random()
    if r < 0.05:
        return rng.random() < 0.5
    f = rng.choice(flags)
    if r < 0.2:
        return ['f', rng.choice(flags + others)['name'] if rng.random() < 0.5 else f['name']]
    hi = min(5, (1 << f['width']) - 1)
    left = [rng.choice(('f', 'self')), f['name']]
    right = rng.randint(0, hi)
    if r < 0.35 and len(flags) > 1:
        right = [rng.choice(('f', 'self')), rng.choice(flags)['name']]
    elif r < 0.5:
        left = bufgen.not_constant(rng, [x['name'] for x in flags], 2)
        if 'tot' in repr(left):
            left = ['f', f['name']]
        right = rng.randint(-3, 8)
    elif r < 0.6 and others:
        left = [rng.choice(('len', 'lens')), rng.choice(others)['name']]
        right = rng.randint(0, 3)
    if rng.random() < 0.25:
        left, right = right, left
    return ['cmp', rng.choice(OPS), left, right]


def generate(rng, tier):
    g = bufgen.Gen(rng, derived=0, inherit=0, declared=0, cond=0, text=0.4, lists=0.3, nested=0.3, depth=1,
                   bits=rng.choice((0.1, 0.5)))
    g.count += 1
    st = bufgen._State(g, 1, rng)
    cursor = 0
    flags, others = [], []
    if rng.random() < 0.2:
        f = st.plain_uint(cursor, 1)
        f['sbp'] = ['ref', ['tot']]
        cursor += 1
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.3:
            w = rng.randint(1, 4)
            s = rng.randint(0, 8 - w)
            f = st.put({'kind': 'int', 'signed': False, 'endian': g.pick(bufgen.ENDIANS), 'api': 0, 'width': w},
                       ['bit', ['at', cursor], ['s', s, s + w]])
        else:
            f = st.plain_uint(cursor, 1)
        f['flag'] = True
        flags.append(f)
        cursor += 1
    if rng.random() < 0.4:
        k = rng.randint(1, 3)
        f = st.put({'kind': 'str'} if rng.random() < 0.5 else {'kind': 'list', 'elem': ['int', 1, False, 'big'], 'count': k},
                   ['sl', cursor, cursor + k])
        others.append(f)
        cursor += k
    moving = rng.random() < 0.35
    base = cursor
    for _ in range(rng.randint(1, 5)):
        k = g.pick((1, 1, 2, 3, 4, 8))
        if moving:
            flag = st.plain_uint(base, 1)
            flag['flag'] = 'bool'
            start = g.add(base, 1)
            f = st.put(g.leaf(k * 8, 1), g.byte_range(start, 0, k))
            f['pif'] = f['uif'] = ['cmp', '==', st.named(flag), 1] if rng.random() < 0.6 else ['f', flag['name']]
            base = ['+', start, ['*', st.named(flag), k]]
            continue
        if k == 1 and rng.random() < 0.6:
            i = rng.randint(0, 7)
            j = rng.randint(i + 1, 8)
            f = st.put(g.int_kind(j - i), ['bit', ['at', base], ['s', i, j]])
        else:
            f = st.put(g.leaf(k * 8, 1), g.byte_range(base, 0, k))
        c = condition(rng, g, flags, others)
        r = rng.random()
        if r < 0.65:
            f['pif'] = f['uif'] = c
        elif r < 0.75:
            f['pif'] = c
        elif r < 0.85:
            f['uif'] = c
        else:
            f['pif'], f['uif'] = c, condition(rng, g, flags, others)
        if f['kind'] == 'int' and rng.random() < 0.15 and f['width'] >= 3:
            f['sbp'] = ['fn', 'sumlen', others[0]['name']] if others and rng.random() < 0.6 else ['const', 1]
        base = base + k
    if rng.random() < 0.5:
        st.put({'kind': 'bytes', 'var': True} if rng.random() < 0.5 else g.int_kind(8),
               ['sl', base, None] if st.fields[-1].get('kind') != 'zzz' and rng.random() < 0 else g.byte_range(base, 0, 1))
        if st.fields[-1]['kind'] == 'bytes':
            st.fields[-1].pop('var')
    if rng.random() < 0.35:
        # An explicit order changes nothing, whether the field to wait for applies or not.
        k = rng.randrange(1, len(st.fields))
        st.fields[k]['ua'] = [f['name'] for f in rng.sample(st.fields[:k], rng.randint(1, min(k, 2)))]
    if rng.random() < 0.3:
        bufgen.by_function(rng, st.fields)
        for k, f in enumerate(st.fields):
            # A function that sees whether another field was there.
            before = [x for x in st.fields[:k] if x.get('uif') is not None and x['kind'] == 'int']
            if f.get('uif') is not None and before and rng.random() < 0.5:
                x = rng.choice(before)
                f['uif'] = ['mf', x['name']]
                f['ua'] = sorted(set(f.get('ua') or ()) | {x['name']})
    spec = {'name': 'Cond', 'fields': st.fields, 'base': None}
    for f in st.fields:
        # A field that isn't read doesn't have its default, either.
        if f.get('uif') is not None and f.get('sbp') is None and rng.random() < 0.4:
            f['default'] = bufgen.value(rng, spec, f, {})
    inner = spec
    if rng.random() < 0.3:
        head = leaf_uint('head_', 0)
        if bufmodel.static_bits(spec) is not None and rng.random() < 0.6:
            size = bufmodel.static_bits(spec) // 8
            f = {'kind': 'list', 'elem': ['buf', spec], 'name': 'items_', 'w': ['sl', 1, 1 + 3 * size], 'count': 3, 'n': 3}
        else:
            f = {'kind': 'buf', 'spec': spec, 'name': 'item_', 'w': ['sl', 1, None]}
        spec = {'name': 'Outer', 'fields': [head, f], 'base': None}
    case = {'spec': spec, 'values': [], 'garbage': [], 'inputs': []}
    for _ in range(3):
        v = bufgen.values(rng, spec)
        case['values'].append(v)
        bad = None
        if inner is spec and rng.random() < 0.7:
            bad = {}
            for f in spec['fields']:
                if f.get('pif') is not None and f.get('sbp') is None:
                    bad[f['name']] = rng.choice([None, 'garbage', 1 << 90, [None], -5, 1.5, b'zz'])
        case['garbage'].append(bad)
        data, _, err = bufcheck.model_encode(spec, v)
        if data is not None:
            case['inputs'].append(data)
            case['inputs'].append(bufcheck.mutate(rng, data))
            if rng.random() < 0.5:
                case['inputs'].append(data[:rng.randint(0, len(data))])
    return case


def bufmodel_conditional(spec, name):
    return any(f['name'] == name and f.get('uif') is not None for f in spec['fields'])


def count(spec, values, obs):
    if any(bufmodel_conditional(spec, n) for f in spec['fields'] for n in f.get('ua') or ()):
        obs.hit('ordered_after_conditional')
    ev = bufmodel.PackEval(spec, copy.deepcopy(values))
    for f in ev.fields:
        if f.get('pif') is not None:
            there = ev.is_packed(f)
            obs.hit('present_when_packed' if there else 'absent_when_packed')
            if not there and f.get('sbp') is not None:
                obs.hit('derived_absent')
        if isinstance(f.get('uif'), list) and f['uif'][0] == 'mf':
            obs.hit('conditions_on_presence')
        if 'pif' in f or 'uif' in f:
            if f.get('pif') != f.get('uif'):
                obs.hit('different_conditions')
        if f['kind'] == 'buf' and f['spec']['name'] != 'x' and any('pif' in x for x in f['spec']['fields']):
            obs.hit('nested_conditional')
            count(f['spec'], values[f['name']], obs)
        if f['kind'] == 'list' and f['elem'][0] == 'buf' and any('pif' in x for x in f['elem'][1]['fields']):
            obs.hit('nested_conditional')


def check(case, obs):
    from infi.instruct.buffer.buffer import InstructBufferError
    spec = case['spec']
    real = bufcheck.Real(spec, obs)
    if "'*'" in repr([f.get('w') for f in spec['fields']]):
        obs.hit('moving_positions')
    reused = real.cls()
    for values, bad in zip(case['values'], case['garbage']):
        want, stored, err = bufcheck.model_encode(spec, values)
        if err is not None:
            obs.hit('unpackable')
            continue
        count(spec, values, obs)
        obj = real.make(values)
        obs.hit('images_compared')
        obs.equal(real.pack(obj), want, 'image', "%r", values)
        now = real.plain(obj)
        for f in bufmodel.all_fields(spec):
            if f.get('sbp') is not None:
                obs.expect(same(now[f['name']], stored.get(f['name'])), 'stored', "derived field %s is %r, want %r",
                           f['name'], now[f['name']], stored.get(f['name']))
        if bad:
            # What an absent field holds doesn't matter.
            ev = bufmodel.PackEval(spec, copy.deepcopy(values))
            absent = [f for f in spec['fields'] if f['name'] in bad and not ev.is_packed(f)]
            referenced = set(n for f in spec['fields'] for n in bufgen.uses(f))
            for f in absent:
                if f['name'] in referenced:
                    continue
                setattr(obj, f['name'], copy.deepcopy(bad[f['name']]))
                obs.hit('garbage_in_absent')
                got, perr = real.try_pack(obj)
                obs.expect(perr is None and got == want, 'absent-matters', "absent field %s = %r: packed %r, want %r",
                           f['name'], bad[f['name']], got if perr is None else str(perr)[:300], want)
                obs.expect(same(getattr(obj, f['name']), bad[f['name']]), 'absent-changed', "absent field %s was %r, is %r",
                           f['name'], bad[f['name']], getattr(obj, f['name']))
    for raw in case['inputs']:
        want, used, err = bufcheck.model_decode(spec, raw)
        if isinstance(err, bufmodel.Unspecified):
            continue
        obj = real.cls()
        for target in (obj, reused):
            try:
                got_used = target.unpack(raw)
            except InstructBufferError as e:
                obs.hit('rejected')
                obs.expect(err is not None, 'rejected', "%r was rejected: %s", raw, str(e)[:400])
                continue
            obs.expect(err is None, 'accepted', "%r was accepted although %s", raw, err)
            got = real.plain(target)
            obs.hit('decodes_compared' if target is obj else 'reused_objects')
            obs.expect(same(got, want), 'decoded', "%r: %s", raw, bufcheck.diff(got, want))
            obs.equal(float(got_used), float(used), 'consumed', "%r", raw)
        if err is None:
            for f in spec['fields']:
                if f.get('uif') is not None and want[f['name']] is None:
                    obs.hit('absent_when_unpacked')
                    if 'default' in f:
                        obs.hit('absent_with_default')
                    room = bufgen.room_of(spec, f)
                    if room and not f.get('var') and bufmodel.is_static(f['w']):
                        ev = bufmodel.Eval(spec)
                        if any(e > len(raw) * 8 for _, e in ev.ranges(f['w'])):
                            obs.hit('absent_input_missing')
