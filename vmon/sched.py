"""Runs functions in threads, one at a time, and switches between them at chosen lines of the library."""
import random
import sys
import threading


class Interleaver(object):
    """
    Every line of the library that one of the functions executes is an event. With `points` (numbers of events) None the events
    are only counted; otherwise another thread continues at each of these. Only one thread runs at any time, so that a run can be
    repeated. If the running one is stuck (it waits for something that another one holds) all of them run freely.
    """

    def __init__(self, bodies, points=(), rng=None, where='infi/instruct', patience=2.0):
        self.bodies = bodies
        self.points = frozenset(points)
        self.rng = rng or random.Random(0)
        self.where = where
        self.patience = patience
        self.events = 0
        self.switches = 0
        self.free = False
        self.trail = []
        self.locks = [threading.Semaphore(0) for _ in bodies]
        self.alive = set(range(len(bodies)))
        self.results = [None] * len(bodies)
        self.known = {}

    def mine(self, code):
        found = self.known.get(code)
        if found is None:
            found = self.known[code] = self.where in code.co_filename.replace('\\', '/')
        return found

    def wait(self, k):
        while not self.free:
            seen = self.events
            if self.locks[k].acquire(timeout=self.patience):
                return
            if self.events == seen:
                self.free = True
                for lock in self.locks:
                    lock.release()

    def turn(self, k):
        others = sorted(self.alive - set([k]))
        if not others:
            return
        other = self.rng.choice(others)
        self.switches += 1
        self.locks[other].release()
        self.wait(k)

    def tracer(self, k):
        def local(frame, event, arg):
            if event == 'line' and not self.free:
                self.events += 1
                if self.events in self.points:
                    self.trail.append((k, frame.f_code.co_name, frame.f_lineno))
                    self.turn(k)
            return local

        def start(frame, event, arg):
            return local if self.mine(frame.f_code) else None
        return start

    def body(self, k):
        self.wait(k)
        sys.settrace(self.tracer(k))
        try:
            self.results[k] = ('value', self.bodies[k]())
        except BaseException as e:
            self.results[k] = ('error', e)
        finally:
            sys.settrace(None)
            self.alive.discard(k)
            others = sorted(self.alive)
            if others and not self.free:
                self.locks[self.rng.choice(others)].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(k,)) for k in range(len(self.bodies))]
        for t in threads:
            t.daemon = True
            t.start()
        if threads:
            self.locks[self.rng.randrange(len(threads))].release()
        for t in threads:
            t.join(120)
            if t.is_alive():
                raise RuntimeError("a thread does not end")
        return self.results


def points(rng, events):
    """A few preemptions anywhere, many, or bursts."""
    if events < 2:
        return ()
    r = rng.random()
    if r < 0.4:
        return [rng.randint(1, events) for _ in range(rng.randint(1, 3))]
    if r < 0.7:
        return [rng.randint(1, events) for _ in range(min(events // 2, rng.choice((10, 50, 200))))]
    start = rng.randint(1, events)
    return range(start, start + rng.randint(2, 60))
