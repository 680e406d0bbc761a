"""Sizes: what the class declares, what pack() writes, what the object computes and what unpack() consumes agree."""
import copy
import math

from vmon import bufcheck, bufgen, bufmodel, large
from vmon.core import same

ID = 'B04'
RULE = ("random classes of fixed, declared and variable size: class size, computed size before and after packing, length "
        "of the packed bytes and bytes consumed by unpack() compared with the reference; several records packed back to "
        "back are read one by one using nothing but the returned sizes; values too large for a declared size")
CASES = {'quick': 2200, 'thorough': 120000}
REQUIRE = {'large_records': 30, 'sizes_compared': 6000, 'static_classes': 400, 'dynamic_classes': 540, 'records_read': 1500,
           'feature_declared_size': 100, 'too_large_rejected': 40, 'feature_conditional': 100, 'feature_bit_range': 3000,
           'feature_multi_range': 300, 'field_list': 400, 'field_buf': 200, 'empty_records': 80, 'blank_records': 10,
           'changed_in_place': 250, 'sizes_after_changes': 1000}


def nontrivial(case):
    return 'large' in case or bufcheck.nontrivial(case)


def sparse(rng, g):
    """A class with few fields, or a record with nothing in it."""
    g.count += 1
    state = bufgen._State(g, 1, rng)
    at = rng.choice((0, 0, rng.randint(1, 5)))
    for _ in range(rng.randint(1, 2)):
        k = rng.randint(1, 3)
        f = state.put(g.leaf(k * 8, 0) if rng.random() < 0.5 else g.int_kind(k * 8), g.byte_range(0, at, at + k))
        f['pif'] = rng.random() < 0.3
        if f['kind'] == 'int' and rng.random() < 0.4:
            f['pif'] = ['cmp', rng.choice(('>', '==', '<=')), ['self', f['name']], rng.choice((0, 0, 7))]
        f['uif'] = f['pif'] if isinstance(f['pif'], bool) else ['cmp', '>', ['ibl'], rng.choice((0, 0, 2, 100))]
        at += k + rng.choice((0, 0, 2))
    spec = {'name': 'Buf%d' % g.count, 'fields': state.fields, 'base': None}
    if rng.random() < 0.3:
        f = {'kind': rng.choice(('bytes', 'bytes', 'list')), 'var': True}
        if f['kind'] == 'list':
            f['elem'] = ['int', 1, False, 'big']
        if rng.random() < 0.5:
            del state.fields[:]
            at = 0
        state.put(f, ['sl', at, None])
        if rng.random() < 0.5:
            f['pif'] = f['uif'] = rng.random() < 0.3
    if rng.random() < 0.5:
        spec['byte_size'] = rng.randint(at + 1, at + 12)
    return spec


def exhaustive(tier):
    for case in large.cases():
        yield case


def generate(rng, tier):
    g = bufgen.Gen(rng, declared=0.3, dynamic=rng.choice((0, 0.7)), tail=rng.choice((0, 0.5)))
    spec = sparse(rng, g) if rng.random() < 0.08 else g.spec()
    case = {'spec': spec, 'records': [bufgen.values(rng, spec) for _ in range(rng.randint(1, 4))],
            'shrink': rng.randint(1, 3), 'junk': bytes(bytearray(rng.getrandbits(8) for _ in range(rng.randint(0, 4))))}
    return case


def check(case, obs):
    if 'large' in case:
        large.check_record(case['large'], obs)
        large.check_fixed(case['large'], obs)
        return
    spec = case['spec']
    real = bufcheck.Real(spec, obs)
    bufcheck.features(spec, obs)
    static = bufmodel.static_bits(spec)
    declared = None if static is None else bufmodel.amount(static)
    obs.hit('static_classes' if static is not None else 'dynamic_classes')
    if declared is None:
        obs.expect(real.cls.byte_size is None, 'class-size', "byte_size is %r, but the size depends on the values",
                   real.cls.byte_size)
    else:
        obs.expect(real.cls.byte_size == declared, 'class-size', "byte_size is %r, want %r", real.cls.byte_size, declared)
    stream, kept = b'', []
    for values in case['records']:
        want, stored, err = bufcheck.model_encode(spec, values)
        if err is not None:
            continue
        total = bufmodel.amount(bufmodel.PackEval(spec, copy.deepcopy(values)).total())
        obj = real.make(values)
        before = obj.calc_byte_size()
        packed = real.pack(obj)
        after = obj.calc_byte_size()
        obs.hit('sizes_compared', 3)
        if not any(bufmodel.PackEval(spec, copy.deepcopy(values)).is_packed(f) for f in bufmodel.all_fields(spec)):
            obs.hit('empty_records')
        elif not want.strip(b'\0') and spec.get('byte_size'):
            obs.hit('blank_records')
        obs.expect(before == total, 'computed-size', "computed size is %r before packing, want %r", before, total)
        obs.expect(after == total, 'computed-size', "computed size is %r after packing, want %r", after, total)
        obs.expect(len(packed) == len(want), 'packed-size', "packed %d bytes, want %d", len(packed), len(want))
        obs.expect(len(packed) == int(math.ceil(total)) or static, 'packed-size', "packed %d bytes, size is %r",
                   len(packed), total)
        if static:
            obs.expect(len(packed) == int(math.ceil(declared)), 'packed-size', "packed %d bytes, byte_size is %r",
                       len(packed), declared)
        _, want_used, merr = bufcheck.model_decode(spec, packed)
        if merr is None:
            got, used = real.unpack(packed)
            obs.expect(used == want_used, 'consumed', "unpack() consumed %r of %d bytes, want %r", used, len(packed),
                       want_used)
        kept.append(values)
        stream += packed
    for i in range(min(2, len(kept) - 1)):
        resized(spec, kept[i], kept[i + 1], real, obs)
    # Records back to back.
    if len(kept) > 1 and "['ibl']" not in repr(spec) and bufgen.self_delimiting(spec) and all(v is not None for v in kept):
        data, offset = stream + case['junk'], 0
        for values in kept:
            got, used = real.unpack(data[offset:])
            want = bufmodel.expected_values(spec, copy.deepcopy(values))
            obs.hit('records_read')
            obs.expect(same(got, want), 'record', "record at %d: %s", offset, bufcheck.diff(got, want))
            offset += int(math.ceil(used))
        obs.expect(offset == len(stream), 'record-sizes', "%d records took %d bytes, packed %d", len(kept), offset, len(stream))
    # A declared size which is too small.
    if kept:
        want, _, _ = bufcheck.model_encode(spec, kept[0])
        stop = max([-1] + list(bufmodel_image(spec, kept[0])))
        smaller = (stop + 8) // 8 - case['shrink']
        if smaller > 0:
            small = dict(spec, byte_size=smaller, name='Small')
            if refers_to_total(spec):
                return
            tight = bufcheck.Real(small, obs)
            try:
                data = tight.make(kept[0]).pack()
            except Exception:
                obs.hit('too_large_rejected')
            else:
                obs.fail('declared-size-exceeded', "a class of %d bytes packed %d bytes" % (smaller, len(data)))


def resized(spec, values, other, real, obs):
    """The size follows the object's values, whether they are replaced or changed in place."""
    obj = real.make(values)
    obj.calc_byte_size()
    new = dict(copy.deepcopy(values))
    for name in sorted(new):
        if name not in other:
            continue
        v, w, have = new[name], other[name], getattr(obj, name)
        if type(have) is bytearray and isinstance(w, (bytes, bytearray)) or \
                type(v) is type(w) is type(have) is list and not any(isinstance(x, (dict, list, tuple)) for x in v + w):
            have[:] = copy.deepcopy(w)
            obs.hit('changed_in_place')
        elif type(v) is not dict and type(v) is type(w) and type(v) not in (list, tuple) and type(have) is type(v):
            setattr(obj, name, copy.deepcopy(w))
        else:
            continue
        new[name] = w
    want, stored, err = bufcheck.model_encode(spec, new)
    if err is not None:
        return
    total = bufmodel.amount(bufmodel.PackEval(spec, copy.deepcopy(new)).total())
    obs.hit('sizes_after_changes')
    obs.expect(obj.calc_byte_size() == total, 'changed-size', "%r changed to %r: size is %r, want %r", values, new, obj.calc_byte_size(), total)


def bufmodel_image(spec, values):
    ev = bufmodel.PackEval(spec, copy.deepcopy(values))
    ev.run()
    return ev.image


def refers_to_total(spec):
    return "['tot']" in repr(spec['fields']) or (spec.get('base') and "['tot']" in repr(spec['base']))
