"""Derived fields and references."""
import copy

from vmon import bufcheck, bufgen, bufmodel
from vmon.core import same

ID = 'B05'
RULE = ("classes whose lengths, counts, offsets and totals are computed from other fields (forward and backward "
        "references, arithmetic, min/max, length, offset after a field, total size, functions of the object): packed "
        "bytes, stored attributes and decoded values compared with a reference evaluator; calls into user functions "
        "counted: one per pack or unpack")
CASES = {'quick': 2000, 'thorough': 130000}
REQUIRE = {'packed_again': 1800, 'feature_order': 350, 'feature_function': 150, 'decoded_again': 1500, 'derived_values_compared': 3500, 'function_calls_counted': 1500, 'function_classes': 200, 'after_scattered': 150, 'after_unpack_compared': 300,
           'feature_computed_position': 2100, 'arithmetic_fields': 710, 'images_compared': 2000, 'decodes_compared': 1500}


def nontrivial(case):
    return 'calls' in case or bufcheck.nontrivial(case)




RESULTS = [None, False, 0, '', 0.0, True, 1, 'x', 7]


def generate_calls(rng):
    """User functions wherever a reference may stand, some shared by several fields."""
    funcs = [{'kind': rng.choice(('cond', 'cond', 'offset', 'count')), 'result': None} for _ in range(rng.randint(1, 4))]
    for f in funcs:
        f['result'] = rng.choice(RESULTS) if f['kind'] == 'cond' else rng.randint(f['kind'] == 'count', 3)
    fields, at = [], 1
    for i in range(rng.randint(1, 5)):
        k = rng.randrange(len(funcs))
        kind = funcs[k]['kind']
        f = {'f': k, 'at': at, 'value': rng.randint(0, 255)}
        if kind == 'cond':
            f['which'] = rng.choice(('both', 'both', 'pack', 'unpack'))
        if kind == 'count':
            f['value'] = [rng.randint(0, 255) for _ in range(funcs[k]['result'])]
        fields.append(f)
        at += 4
    return {'calls': funcs, 'fields': fields, 'total': rng.random() < 0.7, 'sized': rng.random() < 0.5,
            'method': rng.random() < 0.4, 'input': bytes(bytearray(rng.getrandbits(8) for _ in range(at + 6)))}


def check_calls(case, obs):
    from infi.instruct import buffer as B
    funcs = case['calls']
    calls = [[] for _ in funcs]
    attrs, refs = {}, []
    for k, f in enumerate(funcs):
        def func(obj, k=k, result=f['result']):
            calls[k].append(obj)
            return result
        if case['method']:
            attrs['method%d' % k] = func
            ref = getattr(B.self_ref, 'method%d' % k)()
        else:
            ref = B.member_func_ref(func)
        refs.append(B.num_ref(ref) if f['kind'] == 'offset' else ref)
    if case['total']:
        attrs['total'] = B.uint_field(where=B.bytes_ref[0:1], set_before_pack=B.num_ref(B.total_size))
    else:
        attrs['total'] = B.uint_field(where=B.bytes_ref[0:1], default=0)
    static = all(funcs[f['f']]['kind'] != 'offset' for f in case['fields'])       # such a class has a fixed size
    image, stop, packing, unpacking, values, want = {}, 1, set(), set(), {}, {}
    for i, f in enumerate(case['fields']):
        name, fn, at, ref = 'f%d' % i, funcs[f['f']], f['at'], refs[f['f']]
        packed = unpacked = True
        place = [at]
        if fn['kind'] == 'cond':
            kw = {}
            if f['which'] in ('both', 'pack'):
                kw['pack_if'] = ref
                packing.add(f['f'])
                packed = bool(fn['result'])
            if f['which'] in ('both', 'unpack'):
                kw['unpack_if'] = ref
                unpacking.add(f['f'])
                unpacked = bool(fn['result'])
            attrs[name] = B.uint_field(where=B.bytes_ref[at:at + 1], **kw)
            want[name] = bytearray(case['input'])[at]
        elif fn['kind'] == 'offset':
            packing.add(f['f'])
            unpacking.add(f['f'])
            attrs[name] = B.uint_field(where=B.bytes_ref[ref + at])
            place = [at + fn['result']]
            want[name] = bytearray(case['input'])[at + fn['result']]
        else:
            unpacking.add(f['f'])
            place = list(range(at, at + fn['result']))
            attrs[name] = B.list_field(type=B.uint8, n=ref, where=B.bytes_ref[at:at + 4] if fn['result'] == 4 else
                                       B.bytes_ref[at:at + fn['result']])
            want[name] = list(bytearray(case['input'])[at:at + fn['result']])
        values[name] = f['value']
        if not unpacked:
            want[name] = None
        if static:
            stop = max([stop] + [p + 1 for p in place])
        if packed:
            vs = f['value'] if isinstance(f['value'], list) else [f['value']]
            for p, v in zip(place, vs):
                image[p] = v
                stop = max(stop, p + 1)
    cls = type('Calls', (B.Buffer,), attrs)

    def counted(what, ks):
        for k, log in enumerate(calls):
            obs.hit('function_calls_counted')
            obs.expect(len(log) == (k in ks) and all(o is obj for o in log), 'function-evaluations',
                       "function %d was called %d times in one %s, want %d", k, len(log), what, k in ks)
            del log[:]
    for turn in range(2):
        obj = cls(**values)
        counted('construction', ())
        if case['sized']:
            obs.expect(obj.calc_byte_size() == stop, 'size', "size %r, want %d", obj.calc_byte_size(), stop)
            for log in calls:
                obs.expect(len(log) in (0, 2), 'function-evaluations', "%d calls in two calc_byte_size()", len(log))
                del log[:]
        data = bytes(obj.pack())
        counted('pack()', packing)
        if case['total']:
            image[0] = stop
        obs.equal(data, bytes(bytearray(image.get(i, 0) for i in range(stop))), 'function-bytes', "packed")
        obj = cls()
        used = obj.unpack(case['input'])
        counted('unpack()', unpacking)
        got = dict((n, getattr(obj, n)) for n in want)
        obs.equal(got, want, 'function-values', "unpacked")
    obs.hit('function_classes')


def generate(rng, tier):
    if rng.random() < 0.2:
        return generate_calls(rng)
    arith = rng.random() < 0.6
    g = bufgen.Gen(rng, dynamic=0.85, functions=0.5, derived=0.9, cond=0.4, bits=rng.choice((0.1, 0.5)), max_bytes=8,
                   tail=0 if arith else 0.6,
                   split_where=0.3, declared=0)
    spec = g.spec()
    if not spec.get('base') and arith:
        # Fields computed from others, at a fixed place before everything else.
        names = [f['name'] for f in spec['fields'] if f['kind'] == 'int' and not f.get('pif')
                 and not f.get('sbp') and f.get('width', 99) <= 16]
        free = [w for w in bufgen.WORDS if w not in set(f['name'] for f in spec['fields'])]
        rng.shuffle(free)
        if names:
            for k in range(rng.randint(1, 3)):
                f = {'kind': 'int', 'signed': True, 'endian': rng.choice(bufgen.ENDIANS), 'api': rng.randint(0, 2),
                     'width': 64, 'name': free.pop(), 'w': ['sl', 1000 + 8 * k, 1008 + 8 * k], 'arith': True}
                e = bufgen.arithmetic(rng, names)
                if not isinstance(e, list):
                    e = ['self', names[0]]
                f['sbp'] = ['ref', e]
                spec['fields'].append(f)
                if rng.random() < 0.5:
                    names.append(f['name'])
    if not spec.get('base') and rng.random() < 0.3:
        scattered(rng, spec)
    if not spec.get('base') and rng.random() < 0.1:
        spec['fields'].append({'kind': 'json', 'name': 'nothing', 'w': ['sl', 3000, 3008], 'sbp': ['fn', 'nothing']})
    leaves = [f for f in spec['fields'] if f['kind'] in ('int', 'float', 'str') and not f.get('sbp')
              and not any(f['name'] in bufgen.uses(g2) for g2 in bufmodel.all_fields(spec))]
    rng.shuffle(leaves)
    values = bufgen.values(rng, spec)
    if rng.random() < 0.5:
        for f in leaves[:2]:
            r = rng.random()
            others = [x for x in leaves[2:] if x['kind'] == 'int' and x.get('uif') is None]
            if rng.random() < 0.25:
                f['sau'] = ['fn', rng.choice(('none', 'less'))]
            elif f['kind'] != 'int':
                f['sau'] = ['fn', 'double' if r < 0.5 else 'wrap']
            elif r < 0.4:
                f['sau'] = ['fn', 'double']
            elif r < 0.7 or not others:
                f['sau'] = ['fn', 'wrap']
            else:
                f['sau'] = ['ref', [rng.choice(('f', 'self')), others[0]['name']]]
                if f['sau'][1][0] == 'f' and spec['fields'].index(others[0]) > spec['fields'].index(f):
                    f['sau'][1][0] = 'self'
    data, _, err = bufcheck.model_encode(spec, values)
    return {'spec': spec, 'values': values, 'later': [bufgen.values(rng, spec) for _ in range(2)], 'inputs': [] if data is None else
            [data, bufcheck.mutate(rng, data), bufcheck.mutate(rng, data)]}


def scattered(rng, spec):
    """Fields that follow a field made of several ranges, in any order."""
    free = [w for w in bufgen.WORDS if w not in set(f['name'] for f in spec['fields'])]
    rng.shuffle(free)
    bounds = sorted(rng.sample(range(0, 12), 4))
    base = 400
    parts = [['sl', base + bounds[0], base + bounds[1]], ['sl', base + bounds[2], base + bounds[3]]]
    if rng.random() < 0.7:
        parts.reverse()
    width = 8 * (bounds[1] - bounds[0] + bounds[3] - bounds[2])
    where = ['ls', parts] if rng.random() < 0.6 else ['sum', parts]
    if where[0] == 'ls' and rng.random() < 0.5:
        i = rng.randint(0, 7)
        where, width = ['bit', where, ['s', i, None]], width - i
    f = {'kind': 'int', 'signed': False, 'endian': rng.choice(bufgen.ENDIANS), 'api': 0, 'width': width,
         'name': free.pop(), 'w': where}
    spec['fields'].append(f)
    for k in range(rng.randint(1, 2)):
        start = ['after', f['name']]
        if rng.random() < 0.4:
            start = ['+', start, rng.randint(1, 3)]
        g = {'kind': 'int', 'signed': rng.random() < 0.5, 'endian': rng.choice(bufgen.ENDIANS), 'api': 0, 'width': 16,
             'name': free.pop(), 'w': ['sl', start, ['+', start, 2]]}
        spec['fields'].append(g)
        f = g
    f['scattered'] = True


def check(case, obs):
    if 'calls' in case:
        return check_calls(case, obs)
    spec, values = case['spec'], case['values']
    real = bufcheck.Real(spec, obs)
    bufcheck.features(spec, obs)
    fields = bufmodel.all_fields(spec)
    want, stored, err = bufcheck.model_encode(spec, values)
    obj = real.make(values)
    obs.hit('after_scattered', any(f.get('scattered') for f in fields))
    obs.hit('arithmetic_fields', sum(1 for f in fields if f.get('arith')))
    if isinstance(err, bufmodel.ModelError):
        got, perr = real.try_pack(obj)
        obs.expect(perr is not None, 'accepted', "packed %r although %s", got, err)
        obs.hit('unpackable')
    elif err is None:
        for turn in range(2):
            calls = dict(real.trace.calls)
            got = real.pack(obj)
            obs.hit('images_compared')
            obs.expect(got == want, 'derived-bytes', "packed %r, want %r", got, want)
            for f in fields:
                now = getattr(obj, f['name'])
                if f.get('sbp') is not None:
                    obs.hit('derived_values_compared')
                    obs.expect(same(now, stored[f['name']]), 'derived-stored', "%s is %r after packing, want %r",
                               f['name'], now, stored[f['name']])
                    if f['sbp'][0] == 'fn':
                        n = real.trace.calls.get(('sbp', owner(spec, f), f['name']), 0)
                        n -= calls.get(('sbp', owner(spec, f), f['name']), 0)
                        obs.hit('function_calls_counted')
                        obs.expect(n == 1, 'derived-evaluations', "%s was computed %d times in one pack()", f['name'], n)
                elif f['kind'] in ('int', 'float', 'str', 'json', 'bytes'):
                    obs.expect(same(now, values[f['name']]), 'source-changed', "packing changed %s from %r to %r",
                               f['name'], values[f['name']], now)
    if err is None:
        # the same object with other values: what was derived before doesn't matter
        fresh = real.cls() if case['inputs'] and len(case['inputs'][0]) % 2 else obj
        if fresh is not obj:
            try:
                fresh.unpack(case['inputs'][0])
            except Exception:
                pass
        for more in case['later']:
            want, stored, err = bufcheck.model_encode(spec, more)
            if err is not None:
                continue
            for f in fields:
                if f['name'] in more and f.get('sbp') is None:
                    setattr(fresh, f['name'], bufmodel.make_value(real.builder, f, copy.deepcopy(more[f['name']])))
            got = real.pack(fresh)
            obs.hit('packed_again')
            obs.expect(got == want, 'derived-again', "after other values were assigned packed %r, want %r", got, want)
            for f in fields:
                if f.get('sbp') is not None:
                    obs.expect(same(getattr(fresh, f['name']), stored[f['name']]), 'derived-stored', "%s is %r after packing again, want %r",
                               f['name'], getattr(fresh, f['name']), stored[f['name']])
    reused = real.make(values)
    for data in case['inputs']:
        mv, used, merr = bufcheck.model_decode(spec, data)
        if isinstance(merr, bufmodel.Unspecified):
            continue
        calls = dict(real.trace.calls)
        got, _, uerr = real.try_unpack(data)
        if merr is not None:
            obs.expect(uerr is not None, 'accepted', "%r was accepted as %r although %s", data, got, merr)
            continue
        obs.expect(uerr is None, 'rejected', "%r was rejected: %s", data, str(uerr)[:400])
        obs.hit('decodes_compared')
        obs.expect(same(got, mv), 'decoded', "%r: %s", data, bufcheck.diff(got, mv))
        counted = dict(real.trace.calls)
        reused.unpack(data)
        got = real.plain(reused)
        obs.expect(same(got, mv), 'decoded-again', "%r into an object that was used before: %s", data, bufcheck.diff(got, mv))
        obs.hit('decoded_again')
        for f in fields:
            if f.get('sau') is not None and mv[f['name']] is not None:
                obs.hit('after_unpack_compared')
                if f['sau'][0] == 'fn':
                    key = ('sau', owner(spec, f), f['name'])
                    n = counted.get(key, 0) - calls.get(key, 0)
                    obs.hit('function_calls_counted')
                    obs.expect(n == 1, 'after-unpack-evaluations', "%s was computed %d times in one unpack()",
                               f['name'], n)


def owner(spec, f):
    while spec:
        if any(x is f for x in spec['fields']):
            return spec['name']
        spec = spec.get('base')
