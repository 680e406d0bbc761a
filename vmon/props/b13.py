"""Bit views and bit-addressed byte arrays are sequences of bits."""
from vmon import large
from vmon.core import GeneratorError

ID = 'B13'
RULE = ("histories of 1-14 operations (slice/index assignment and deletion, insertion, extension, concatenation, zero "
        "fill, pop) on bit-addressed byte arrays of 0-70 bits that start at a whole or a fractional byte, compared after "
        "every step with a list of bits through every way of reading; scattered range reads and writes through the "
        "input and output buffers; enumerated: every slice of every length up to 20 bits deleted and replaced by every "
        "value length, all views over three bytes")
CASES = {'quick': 16000, 'thorough': 900000}
REQUIRE = {'large_arrays': 150, 'long_arrays': 60, 'mutations': 35000, 'reads': 400000, 'unaligned_mutations': 20000, 'ints_that_do_not_fit': 1000, 'slices_checked': 40000,
           'range_reads': 2500, 'range_writes': 1500, 'enumerated_edits': 22000, 'views': 390, 'shifted_views': 3000,
           'index_errors': 2000, 'left_sums': 800}

TOP = 70


def exhaustive(tier):
    for case in large.cases(large.SHORTER):
        yield case
    for n in range(0, 21 if tier == 'quick' else 33):
        for i in range(0, n + 1):
            yield {'op': 'edit', 'n': n, 'i': i, 'seed': n * 100 + i}
    for a in range(0, 25):
        yield {'op': 'view', 'a': a, 'data': bytes([0x5b, 0xc7, 0x9e])}


def random_bits(rng, n):
    style = rng.random()
    if style < 0.15:
        return [1] * n
    if style < 0.25:
        return [0] * n
    return [rng.randint(0, 1) for _ in range(n)]


def generate(rng, tier):
    if rng.random() < 0.25:
        return ranges_case(rng)
    n = rng.choice((rng.randint(0, 12), rng.randint(0, 40), 8 * rng.randint(0, 8)))
    long_ = rng.random() < 0.012
    if long_:
        n = rng.choice((rng.randint(200, 3000), rng.randint(2000, 9000), 8 * rng.randint(200, 1100)))
    case = {'op': 'history', 'bits': random_bits(rng, n), 'lead': random_bits(rng, rng.choice((0, 0, 0, 3, 8, 13))),
            'trail': random_bits(rng, rng.choice((0, 0, 0, 2, 9))), 'steps': []}
    for _ in range(rng.randint(1, 5 if long_ else 14)):
        op = rng.choice(['set', 'set', 'set', 'del', 'insert', 'extend', 'setint', 'setint', 'add', 'radd', 'zfill', 'index',
                         'delindex', 'append', 'iadd', 'pop', 'insertint', 'slice', 'clear' if rng.random() < 0.2 else 'set'])
        step = {'op': op, 'at': [rng.random(), rng.random()], 'neg': [rng.random() < 0.2, rng.random() < 0.2],
                'open': [rng.random() < 0.1, rng.random() < 0.1], 'whole': rng.random() < 0.3,
                'v': random_bits(rng, rng.choice((0, 1, rng.randint(0, 20), 8, 16) if rng.random() < (0.7 if long_ else 0.995) else
                                           (rng.randint(50, 700), 64, 128, 256, 512))),
                'form': rng.choice(['array', 'view', 'bytes', 'bytearray', 'list', 'iter', 'shifted']), 'k': rng.randint(0, 40) if rng.random() < 0.99 else n + rng.randint(0, 900),
                'r': rng.random(), 'same': rng.random() < 0.4}
        case['steps'].append(step)
    return case


def ranges_case(rng):
    total = rng.randint(1, 60)
    case = {'op': 'ranges', 'bits': random_bits(rng, total), 'ranges': [], 'value': None, 'how': rng.randint(0, 3)}
    whole = rng.random() < 0.3
    for _ in range(rng.randint(1, 5)):
        a = rng.randint(0, total)
        b = rng.randint(a, min(total, a + rng.choice((1, 7, 8, 20, 60))))
        if whole:
            a, b = a // 8 * 8, b // 8 * 8
        case['ranges'].append((a, b))
    case['disjoint'] = disjoint(case['ranges'])
    need = sum(b - a for a, b in case['ranges'])
    case['value'] = random_bits(rng, need + rng.choice((0, 0, 1, 5, 8)))
    return case


def disjoint(ranges):
    last = 0
    for a, b in sorted(r for r in ranges if r[0] < r[1]):
        if a < last:
            return False
        last = b
    return True


def nontrivial(case):
    return 'large' in case or case['op'] != 'history' or len(case['steps']) > 1


# -- the reference: a list of bits -----------------------------------------------------------------

def as_bytes(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << (i & 7)
    return bytes(out)


def of_bytes(data):
    return [(b >> k) & 1 for b in bytearray(data) for k in range(8)]


def number(bits):
    return sum(b << k for k, b in enumerate(bits))


def array(bits, lead=(), trail=()):
    from infi.instruct.buffer.io_buffer import BitAwareByteArray
    everything = list(lead) + list(bits) + list(trail)
    return BitAwareByteArray(bytearray(as_bytes(everything)), len(lead) / 8.0, (len(lead) + len(bits)) / 8.0)


def observe(x, bits, obs, why):
    """Every way of reading `x` gives the bits `bits`."""
    n = len(bits)
    text = "".join(str(b) for b in reversed(bits))
    got = x.to_bitstr()
    obs.expect(got == text, 'bits', "%s: the bits are %s instead of %s", why, got, text)
    obs.expect(x.length() * 8 == n, 'length', "%s: length() is %r instead of %r", why, x.length(), n / 8.0)
    obs.expect(len(x) == (n + 7) // 8, 'len', "%s: len() is %r instead of %r", why, len(x), (n + 7) // 8)
    data = as_bytes(bits)
    obs.equal(x.to_bytes(), data, 'to_bytes', "%s: to_bytes()", why)
    obs.expect(list(x) == list(bytearray(data)), 'iteration', "%s: iterating gives %r instead of %r", why, list(x), list(data))
    ba = x.to_bytearray()
    obs.expect(isinstance(ba, bytearray) and bytes(ba) == data, 'to_bytearray', "%s: to_bytearray() is %r", why, ba)
    for k in range(len(ba)):
        ba[k] ^= 0xff
    ba += b'more'
    obs.expect(x.to_bytes() == data, 'conversion-shared', "%s: changing what to_bytearray() gave changes the bits to %r", why, x.to_bytes())
    obs.hit('reads', 6)


def observe_more(x, bits, rng, obs, why):
    n = len(bits)
    data = as_bytes(bits)
    for i in range(len(data)):
        obs.expect(x[i] == bytearray(data)[i], 'index', "%s: item %d is %r instead of %r", why, i, x[i], bytearray(data)[i])
        obs.hit('reads')
    for _ in range(3):
        if n:
            i = rng.randrange(n)
            obs.expect(x[i / 8.0] == number(bits[i:i + 8]), 'index', "%s: item %r is %r instead of %r", why, i / 8.0, x[i / 8.0],
                       number(bits[i:i + 8]))
            obs.expect(x[(i - n) / 8.0] == number(bits[i:i + 8]), 'index', "%s: item %r", why, (i - n) / 8.0)
            obs.hit('reads', 2)
    obs.expect(list(reversed(x)) == list(reversed(bytearray(data))), 'reversed', "%s: reversed() is %r", why, list(reversed(x)))
    v = rng.choice(list(bytearray(data)) + [rng.randrange(256)])
    obs.expect((v in x) == (v in bytearray(data)), 'contains', "%s: %d in it is %r", why, v, v in x)
    obs.expect(x.count(v) == list(bytearray(data)).count(v), 'count', "%s: count(%d) is %r", why, v, x.count(v))
    try:
        got = x.index(v)
    except ValueError:
        got = None
    obs.expect(got == (list(bytearray(data)).index(v) if v in bytearray(data) else None), 'find', "%s: index(%d) is %r", why, v,
               got)
    for i in (len(data) + rng.randint(0, 3), n / 8.0, -len(data) - rng.choice((0.125, 1, 7, 100))):
        try:
            got = x[i]
        except IndexError:
            got = None
        obs.expect(got is None, 'index-past-end', "%s: item %r past the end is %r instead of an IndexError", why, i, got)
        obs.hit('index_errors')


def a_slice(n, step_a, step_b, neg, open_, whole):
    """(slice, i, j): a slice of an n-bit sequence, in any of the ways to write it, and the bits i..j it stands for."""
    i, j = int(step_a * (n + 1)), int(step_b * (n + 1))
    if whole:
        i, j = i // 8 * 8, j // 8 * 8
    i, j = min(i, j), max(i, j)
    if i == 0 and open_[0]:
        a = None
    elif neg[0] and 0 < n and i < n:
        a = (i - n) / 8.0
        if i == 0:
            a -= int(step_b * 40) / 8.0         # before the beginning
    else:
        a = i / 8.0
    if open_[1]:
        b, j = None, n
    elif neg[1] and j < n:
        b = (j - n) / 8.0
    elif j == n and neg[0]:
        b = j / 8.0 + 5            # past the end
    else:
        b = j / 8.0
    return slice(a, b), i, j


def operand(form, bits):
    """-> (value to hand to the array, bits that it stands for)."""
    from infi.instruct.buffer.io_buffer import BitView
    if form == 'array':
        return array(bits), bits
    if form == 'shifted':
        return array(bits, lead=[1, 0, 1], trail=[1, 1]), bits
    if form == 'view':
        return BitView(as_bytes(bits), 0, len(bits) / 8.0), bits
    whole = of_bytes(as_bytes(bits))
    data = as_bytes(bits)
    if form == 'bytes':
        return data, whole
    if form == 'bytearray':
        return bytearray(data), whole
    if form == 'list':
        return list(bytearray(data)), whole
    return iter(list(bytearray(data))), whole


def check_history(case, obs):
    import random
    from infi.instruct.buffer.io_buffer import BitView
    rng = random.Random(repr(case['bits']) + repr(len(case['steps'])))
    M = list(case['bits'])
    x = array(M, case['lead'], case['trail'])
    lead, trail = len(case['lead']), len(case['trail'])
    if lead:
        obs.hit('shifted_views')
    observe(x, M, obs, "new array")
    observe_more(x, M, rng, obs, "new array")
    history = []
    for s in case['steps']:
        n = len(M)
        if n > TOP * 4 and n > 4 * len(case['bits']) + 2000:
            break
        if n > 4096:
            obs.hit('long_arrays')
        op = s['op']
        if trail and op not in ('set', 'setint', 'index', 'slice', 'add'):
            continue            # what happens to bits behind a view that ends before its buffer does is not specified
        sl, i, j = a_slice(n, s['at'][0], s['at'][1], s['neg'], s['open'], s['whole'])
        value, vbits = operand(s['form'], s['v'])
        kept = None
        if op in ('set', 'extend', 'insert', 'add', 'radd', 'iadd') and s['form'] in ('array', 'view', 'shifted', 'bytearray'):
            kept = (value, list(vbits))
        history.append((op, i, j, "".join(map(str, vbits)), s['form']))
        why = "after %r" % (history,)
        if i % 8 or j % 8:
            obs.hit('unaligned_mutations')
        if op == 'set':
            if s['same'] and s['form'] in ('array', 'view', 'shifted'):
                vbits = (vbits + [1, 0, 1, 1] * (j - i))[:j - i]
                value, vbits = operand(s['form'], vbits)
                kept = (value, list(vbits))
            if trail and len(vbits) != j - i:
                continue
            x[sl] = value
            M[i:j] = vbits
        elif op == 'setint':
            w = j - i
            v = number(s['v']) if s['r'] < 0.5 else (1 << w) - 1 if s['r'] < 0.7 else int(s['r'] * (1 << min(w, 53))) << max(0, w - 53)
            if s['r'] > 0.93:
                v = 1 << w
            if w and v < 1 << w:
                x[sl] = v
                M[i:j] = [(v >> k) & 1 for k in range(w)]
            else:
                obs.hit('ints_that_do_not_fit')
                rejects(x, sl, v if w else 1, obs, why)
                rejects(x, sl, -1, obs, why)
        elif op == 'index':
            if not n:
                continue
            i = min(i, n - 1)
            w = min(8, n - i)
            v = number(s['v'][:8]) & ((1 << w) - 1)
            x[i / 8.0 if not s['whole'] else i // 8] = v
            if s['whole']:
                i = i // 8 * 8
                w = min(8, n - i)
                v = v & ((1 << w) - 1)
            M[i:i + w] = [(v >> k) & 1 for k in range(w)]
        elif op == 'delindex':
            if not n:
                continue
            i = min(i, n - 1)
            del x[i / 8.0]
            del M[i:i + 8]
        elif op == 'del':
            del x[sl]
            del M[i:j]
        elif op == 'insert':
            x.insert(i / 8.0 if sl.start is None else sl.start, value)
            M[i:i] = vbits
        elif op == 'insertint':
            v = number(s['v'][:8])
            x.insert(i / 8.0, v)
            M[i:i] = [(v >> k) & 1 for k in range(8)]
        elif op == 'append':
            v = number(s['v'][:8])
            x.append(v)
            M += [(v >> k) & 1 for k in range(8)]
        elif op in ('extend', 'iadd'):
            if op == 'extend':
                x.extend(value)
            else:
                before = x
                x += value
                obs.expect(x is before, 'iadd', "+= made another object %s", why)
            M += vbits
        elif op == 'add':
            if s['form'] not in ('array', 'view', 'shifted'):
                continue
            before = x
            y = x + value
            observe(before, M, obs, "left operand of + " + why)
            observe(y, M + vbits, obs, "the sum " + why)
            if y.length():
                keep = number((M + vbits)[:8])
                y[0] = keep ^ 1
                observe(before, M, obs, "left operand of + after a change of the sum " + why)
                y[0] = keep
            if not trail:
                x, M = y, M + vbits
        elif op == 'radd':
            # A view of read-only or of changeable memory, starting and ending anywhere in it.
            a, b = int(s['r'] * 11), int(s['at'][1] * 5)
            around = [1] * a + s['v'] + [0, 1, 1, 0, 1][:b]
            memory = (bytearray if s['same'] else bytes)(as_bytes(around))
            value, vbits = BitView(memory, a / 8.0, (a + len(s['v'])) / 8.0), s['v']
            y = value + x
            obs.expect(bytes(memory) == as_bytes(around), 'operand', "the memory of the left operand changed from %r to %r %s",
                       as_bytes(around), bytes(memory), why)
            observe(value, vbits, obs, "left operand of + " + why)
            observe(x, M, obs, "right operand of + " + why)
            if y.length():
                # The sum has its own memory.
                keep = number((vbits + M)[:8])
                y[0] = keep ^ 1
                observe(value, vbits, obs, "left operand of + after a change of the sum " + why)
                observe(x, M, obs, "right operand of + after a change of the sum " + why)
                y[0] = keep
            kept = (value, list(vbits))
            obs.hit('left_sums')
            if a or b:
                y = array(vbits + M)
            x, M = y, vbits + M
        elif op == 'zfill':
            x.zfill(s['k'] / 8.0)
            M += [0] * (s['k'] - n)
        elif op == 'pop':
            if n < 8:
                continue
            v = x.pop()
            obs.equal(v, number(M[-8:]), 'pop', "popped %s", why)
            del M[-8:]
        elif op == 'clear':
            if n % 8:
                continue
            x.clear()
            M = []
        elif op == 'slice':
            y = x[sl]
            obs.expect(type(y) is type(x), 'slice', "a slice of the array is a %r", type(y))
            observe(y, M[i:j], obs, "slice %d:%d %s" % (i, j, why))
            z_sl, a, b = a_slice(j - i, s['r'], s['at'][1], s['neg'][::-1], s['open'][::-1], s['whole'])
            observe(y[z_sl], M[i:j][a:b], obs, "slice %d:%d of slice %d:%d %s" % (a, b, i, j, why))
            obs.hit('slices_checked', 2)
            y[0:] = [0x5a] * len(y)                     # a slice is a copy
        obs.hit('mutations')
        if kept is not None and not isinstance(kept[0], bytearray):
            observe(kept[0], kept[1], obs, "the operand " + why)
        elif kept is not None:
            obs.expect(bytes(kept[0]) == as_bytes(kept[1]), 'operand', "the operand changed %s", why)
        observe(x, M, obs, why)
        if not trail and not lead:
            obs.expect(len(x.buffer) == len(as_bytes(M)), 'buffer', "%d bytes are kept for %d bits %s", len(x.buffer), len(M), why)
    observe_more(x, M, rng, obs, "after %r" % (history,))
    for _ in range(4):
        sl, i, j = a_slice(len(M), rng.random(), rng.random(), (rng.random() < .3, rng.random() < .3), (rng.random() < .3,) * 2,
                           False)
        observe(x[sl], M[i:j], obs, "slice %d:%d after %r" % (i, j, history))
        obs.hit('slices_checked')


def rejects(x, sl, v, obs, why):
    before = x.to_bitstr()
    try:
        x[sl] = v
    except ValueError:
        obs.expect(x.to_bitstr() == before, 'rejected-int-changes', "a rejected int changed the bits %s", why)
        return
    obs.fail('int-too-big', "%d was accepted by a range of bits it does not fit in %s" % (v, why))


def check_edit(case, obs):
    import random
    rng = random.Random(case['seed'])
    n, i = case['n'], case['i']
    for j in range(i, n + 1):
        bits = random_bits(rng, n)
        x = array(bits)
        del x[i / 8.0:j / 8.0]
        obs.hit('enumerated_edits')
        observe(x, bits[:i] + bits[j:], obs, "%s without %d:%d" % (bits, i, j))
        for k in range(0, 18):
            v = random_bits(rng, k)
            x = array(bits)
            x[i / 8.0:j / 8.0] = array(v)
            want = bits[:i] + v + bits[j:]
            obs.expect(x.to_bitstr() == "".join(map(str, reversed(want))) and x.length() * 8 == len(want), 'edit',
                       "%s with %s at %d:%d is %s", bits, v, i, j, x.to_bitstr())
            obs.expect(x.to_bytes() == as_bytes(want), 'edit', "%s with %s at %d:%d is %r", bits, v, i, j, x.to_bytes())
            obs.hit('enumerated_edits')
    for k in range(0, 18):
        bits, v = random_bits(rng, n), random_bits(rng, k)
        x = array(bits)
        x.insert(i / 8.0, array(v))
        observe(x, bits[:i] + v + bits[i:], obs, "%s with %s inserted at %d" % (bits, v, i))
        obs.hit('enumerated_edits')


def check_view(case, obs):
    import random
    from infi.instruct.buffer.io_buffer import BitView
    data, a = case['data'], case['a']
    bits = of_bytes(data)
    rng = random.Random(a)
    for b in range(a, 25):
        for source in (data, bytearray(data)):
            view = BitView(source, a / 8.0, b / 8.0)
            observe(view, bits[a:b], obs, "view %d:%d of %r" % (a, b, data))
            observe_more(view, bits[a:b], rng, obs, "view %d:%d of %r" % (a, b, data))
            obs.hit('views')
        n = b - a
        for c in range(0, n + 1):
            d = rng.randint(c, n)
            part = view[c / 8.0:d / 8.0]
            observe(part, bits[a + c:a + d], obs, "slice %d:%d of view %d:%d of %r" % (c, d, a, b, data))
            again = BitView(part.buffer, part.start, part.stop)
            observe(again, bits[a + c:a + d], obs, "view of slice %d:%d of view %d:%d of %r" % (c, d, a, b, data))
            obs.hit('slices_checked', 2)
    whole = BitView(bytearray(data), a / 8.0)
    observe(whole, bits[a:], obs, "view from %d" % a)
    for key in (slice(0, 1, 2), 'x', None):
        try:
            whole[key]
        except (NotImplementedError, TypeError):
            continue
        obs.fail('bad-key', "a view accepted the key %r" % (key,))


def check_ranges(case, obs):
    from infi.instruct.buffer.io_buffer import InputBuffer, OutputBuffer, BitView
    from infi.instruct.buffer.range import SequentialRange, SequentialRangeList
    bits = case['bits']
    ranges = SequentialRangeList(SequentialRange(a / 8.0, b / 8.0) for a, b in case['ranges'])
    total = sum(b - a for a, b in case['ranges'])
    obs.expect(ranges.byte_length() * 8 == total, 'range-length', "the length of %r is %r", ranges, ranges.byte_length())
    obs.expect(ranges.max_stop() * 8 == max(b for a, b in case['ranges']), 'range-stop', "max stop of %r is %r", ranges,
               ranges.max_stop())
    obs.expect(ranges.has_overlaps() == (not case['disjoint']), 'overlaps', "overlaps of %r reported as %r", ranges,
               ranges.has_overlaps())
    data = as_bytes(bits)
    source = [data, bytearray(data), BitView(data, 0, len(bits) / 8.0), array(bits, [1, 1], [1])][case['how']]
    got = InputBuffer(source).get(ranges)
    want = [x for a, b in case['ranges'] for x in bits[a:b]]
    observe(got, want, obs, "bits %r of %s" % (ranges, bits))
    obs.hit('range_reads')
    if not case['disjoint']:
        return
    value = case['value']
    out = OutputBuffer(array(bits) if case['how'] % 2 else None)
    M = list(bits) if case['how'] % 2 else []
    if case['how'] > 1:
        value = of_bytes(as_bytes(value))
        out.set(as_bytes(value), ranges)
    else:
        # Values that do not fill their last byte come as bit views.
        try:
            out.set(array(value), ranges)
        except AssertionError:
            return                       # BitView() of an array that ends within a byte is not supported
    pos = 0
    for a, b in case['ranges']:
        M += [0] * (a - len(M))
        M[a:b] = value[pos:pos + b - a]
        pos += b - a
    observe(out.get(), M, obs, "%s written to %r over %s" % (value, ranges, bits))
    obs.hit('range_writes')


def check(case, obs):
    if 'large' in case:
        large.check_arrays(case['large'], obs)
        return
    if case['op'] == 'history':
        check_history(case, obs)
    elif case['op'] == 'edit':
        check_edit(case, obs)
    elif case['op'] == 'view':
        check_view(case, obs)
    elif case['op'] == 'ranges':
        check_ranges(case, obs)
    else:
        raise GeneratorError(case['op'])
