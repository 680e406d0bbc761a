"""Monitoring framework: deterministic sharded workloads, verdicts, evidence, replay.

A property module defines
    ID, RULE                 strings
    CASES = {tier: n}        number of random cases
    REQUIRE = {counter: n}   observations without which the run is inconclusive (quick tier numbers)
    exhaustive(tier)         optional: list/iterator of enumerated cases (small domains, complete)
    generate(rng, tier)      -> a case: plain data (dict/list/int/float/str/bytes/None/bool/tuple)
    check(case, obs)         runs the real code and the oracle; calls obs.fail(...) on a violation
    nontrivial(case)         optional predicate
"""
import base64
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)         # messages and replay files show fields of any width

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT_S = 40          # per case; cases take milliseconds. Virtual (CPU) time, not wall clock.
MEM_LIMIT = 6 << 30       # address space per worker
WALL_CAP_S = {'quick': 600, 'thorough': 3300}


class Violation(Exception):
    def __init__(self, mechanism, message):
        super(Violation, self).__init__(message)
        self.mechanism = mechanism
        self.message = message


class Hang(BaseException):
    pass


class GeneratorError(Exception):
    """The harness itself is wrong: never a verdict about the code."""


# -- plain data <-> JSON ------------------------------------------------------------------------

def enc(o):
    if o is None or isinstance(o, (bool, str)):
        return o
    if isinstance(o, int):
        return o if abs(o) < (1 << 53) else {'$i': str(o)}
    if isinstance(o, float):
        return {'$f': struct.pack('>d', o).hex()}
    if isinstance(o, (bytes, bytearray)):
        return {'$b': bytes(o).hex()}
    if isinstance(o, tuple):
        return {'$t': [enc(x) for x in o]}
    if isinstance(o, list):
        return [enc(x) for x in o]
    if isinstance(o, dict):
        if all(isinstance(k, str) and not k.startswith('$') for k in o):
            return dict((k, enc(v)) for k, v in o.items())
        return {'$d': [[enc(k), enc(v)] for k, v in o.items()]}
    raise GeneratorError("case holds a %r" % (type(o),))


def dec(o):
    if isinstance(o, list):
        return [dec(x) for x in o]
    if isinstance(o, dict):
        if len(o) == 1:
            (k, v), = o.items()
            if k == '$i':
                return int(v)
            if k == '$f':
                return struct.unpack('>d', bytes.fromhex(v))[0]
            if k == '$b':
                return bytes.fromhex(v)
            if k == '$t':
                return tuple(dec(x) for x in v)
            if k == '$d':
                return dict((dec(a), dec(b)) for a, b in v)
        return dict((k, dec(v)) for k, v in o.items())
    return o


def dumps(case):
    return json.dumps(enc(case), sort_keys=True)


def same(a, b):
    """Value equality that tells -0.0 from 0.0 and 1 from 1.0 from True apart, and equates NaNs bit-wise."""
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, float) and isinstance(b, float)):
            return False
        if a != a or b != b:
            return a != a and b != b
        return struct.pack('>d', a) == struct.pack('>d', b)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, (bytes, bytearray)) != isinstance(b, (bytes, bytearray)):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


class Obs(object):
    """What the monitors saw. One per worker; merged by the parent."""

    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.known = {}

    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, mechanism, message):
        raise Violation(mechanism, message)

    def expect(self, cond, mechanism, message, *args):
        self.hit('oracle_comparisons')
        if not cond:
            raise Violation(mechanism, message % args if args else message)

    def equal(self, got, want, mechanism, message, *args):
        self.hit('oracle_comparisons')
        if not same(got, want):
            raise Violation(mechanism, "%s: got %r, want %r" % (message % args if args else message, got, want))


def load_known(pid):
    """known_findings.txt: 'known: property=<id> mechanism=<key> <text>' lines suppress that mechanism only."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                key, text = rest.split(' ', 1)
                out[key.split('=', 1)[1]] = text
    return out


def rng_for(pid, seed, i):
    return random.Random("%s|%s|%s" % (pid, seed, i))


def _on_cpu(signum, frame):
    raise Hang()


def run_case(mod, case, obs):
    """Returns None or (mechanism, message)."""
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT_S)
    try:
        try:
            mod.check(case, obs)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as v:
        return v.mechanism, v.message
    except Hang:
        return 'no-termination', "did not finish within %d s of CPU time" % CPU_LIMIT_S
    except MemoryError:
        return 'memory', "exhausted memory (%d bytes)" % MEM_LIMIT
    except GeneratorError:
        raise
    except Exception as e:
        # Oracles name the errors they accept; every other one is a violation.
        return 'unexpected-exception', "%s: %s\n%s" % (type(e).__name__, str(e)[-1500:], traceback.format_exc()[-1500:])
    return None


def cases_of(mod, tier, seed, ncases, shard, shards):
    i = 0
    ex = mod.exhaustive(tier) if hasattr(mod, 'exhaustive') else ()
    for k, case in enumerate(ex):
        if k % shards == shard:
            yield ('x', k), case
    for i in range(shard, ncases, shards):
        yield ('r', i), mod.generate(rng_for(mod.ID, seed, i), tier)


def worker(mod, tier, seed, ncases, shard, shards, deadline, progress, out):
    obs = Obs()
    known = load_known(mod.ID)
    res = {'violation': None, 'error': None, 'cases': 0, 'nontrivial': 0, 'truncated': False}
    nontrivial = getattr(mod, 'nontrivial', lambda case: True)
    try:
        for where, case in cases_of(mod, tier, seed, ncases, shard, shards):
            if time.time() > deadline:
                res['truncated'] = True
                break
            k = (where[1] << 1) | (where[0] == 'r')
            progress[shard * 8:shard * 8 + 8] = struct.pack('<q', k)
            bad = run_case(mod, case, obs)
            res['cases'] += 1
            obs.hit('enumerated_cases' if where[0] == 'x' else 'random_cases')
            if nontrivial(case):
                obs.sigs.add(hashlib.md5(dumps(case).encode()).digest()[:8])
            if len(obs.samples) < 2 and where[0] == 'r' and len(dumps(case)) < 3000:
                obs.samples.append(enc(case))
            if bad is not None:
                if bad[0] in known:
                    obs.known[bad[0]] = obs.known.get(bad[0], 0) + 1
                    continue
                res['violation'] = {'where': where, 'case': enc(case), 'mechanism': bad[0], 'message': bad[1]}
                break
    except BaseException:
        res['error'] = traceback.format_exc()[-3000:]
    res.update(counts=obs.counts, sigs=[s.hex() for s in obs.sigs], samples=obs.samples, known=obs.known)
    with os.fdopen(out, 'w') as f:
        json.dump(res, f)


def case_at(mod, tier, seed, k):
    if k & 1:
        return ('r', k >> 1), mod.generate(rng_for(mod.ID, seed, k >> 1), tier)
    for n, case in enumerate(mod.exhaustive(tier)):
        if n == k >> 1:
            return ('x', n), case


def merge(results):
    counts, sigs, samples, known = {}, set(), [], {}
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        sigs.update(r['sigs'])
        samples.extend(r['samples'][:1])
    return counts, sigs, samples[:4], known


def write_replay(pid, seed, tier, v):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s%s-s%s.json' % (pid, v['where'][0], v['where'][1], seed))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1, sort_keys=True)
    return path


def check_target():
    want = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
    for name in ('infi.instruct.base', 'infi.instruct.struct', 'infi.instruct.buffer.buffer'):
        path = os.path.realpath(importlib.import_module(name).__file__)
        if not path.startswith(want + os.sep):
            raise GeneratorError("%s was imported from %s, not from %s" % (name, path, want))


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--cases', type=int)
    p.add_argument('--shards', type=int, default=int(os.environ.get('VERIF_SHARDS') or 8))
    p.add_argument('--replay')
    a = p.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    check_target()
    mod = importlib.import_module('vmon.props.%s' % a.property.lower())
    pid = mod.ID
    if a.replay:
        data = json.load(open(a.replay))
        bad = run_case(mod, dec(data['case']), Obs())
        if bad is None:
            print("replay: no violation")
            return 0
        print(bad[1])
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        return 1

    t0 = time.time()
    ncases = a.cases if a.cases is not None else mod.CASES[a.tier]
    deadline = t0 + WALL_CAP_S[a.tier]
    progress = mmap.mmap(-1, 8 * a.shards)
    progress[:] = struct.pack('<q', -1) * a.shards
    kids = []
    for s in range(a.shards):
        r, w = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            code = 3
            try:
                os.close(r)
                for rr, _, _ in kids:
                    os.close(rr)
                resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                sys.setrecursionlimit(5000)
                worker(mod, a.tier, a.seed, ncases, s, a.shards, deadline, progress, w)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((r, pid_, s))

    results, violations, errors = [], [], []
    import select
    bufs = dict((r, b'') for r, _, _ in kids)
    open_fds = set(bufs)
    hard = t0 + WALL_CAP_S[a.tier] + 3 * CPU_LIMIT_S
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 1.0)
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                bufs[r] += data
            else:
                open_fds.discard(r)
        if time.time() > hard:
            for _, kid, _ in kids:
                try:
                    os.kill(kid, signal.SIGKILL)
                except OSError:
                    pass
            errors.append("wall-clock watchdog fired: inconclusive")
            break
    for r, kid, s in kids:
        _, status = os.waitpid(kid, 0)
        try:
            results.append(json.loads(bufs[r].decode()))
        except ValueError:
            k, = struct.unpack('<q', progress[s * 8:s * 8 + 8])
            if k < 0 or errors:
                errors.append("worker %d ended with status %d before its first case" % (s, status))
                continue
            # The process running the real code died (out of memory, fatal interpreter error) in the middle of a case.
            where, case = case_at(mod, a.tier, a.seed, k)
            violations.append({'where': where, 'case': enc(case), 'mechanism': 'process-died',
                               'message': "the process died (wait status %d) while running this case" % status})
    for res in results:
        if res['violation']:
            violations.append(res['violation'])
        if res['error']:
            errors.append(res['error'])
    counts, sigs, samples, known_hits = merge(results)
    evaluations = sum(r['cases'] for r in results)
    truncated = any(r['truncated'] for r in results)
    known = load_known(pid)

    scale = float(ncases) / max(1, mod.CASES['quick'])
    missing = ["%s: saw %d, need %d" % (k, counts.get(k, 0), n) for k, n in sorted(mod.REQUIRE.items())
               if counts.get(k, 0) < n * min(1.0, scale)]
    evidence = {
        'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
            'samples': samples or ['(no random case finished)'],
            'observed': dict(sorted(counts.items())), 'truncated_by_wall_cap': truncated,
            'interpreter': sys.version.split('\n')[0], 'shards': a.shards,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d.tmp' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(VERIF, 'evidence', '%s.json' % pid))

    for key, text in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s [%s, seen %d times]" % (pid, text, key, known_hits.get(key, 0)))
    if violations:
        for v in violations[:3]:
            path = write_replay(pid, a.seed, a.tier, v)
            print("%s: %s" % (v['mechanism'], v['message'][:1200]))
            print("case: %s" % json.dumps(v['case'], sort_keys=True)[:600])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s: harness error\n%s" % (pid, errors[0]))
        return 2
    if missing:
        print("INCONCLUSIVE property=%s: the monitors did not observe enough: %s" % (pid, "; ".join(missing)))
        return 2
    print("held property=%s tier=%s seed=%d: %d executions (%d distinct), %d comparisons, %.1f s%s" % (
        pid, a.tier, a.seed, evaluations, len(sigs), counts.get('oracle_comparisons', 0), time.time() - t0,
        ", truncated by the wall cap" if truncated else ""))
    return 0
