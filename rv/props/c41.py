"""C41: concurrent use gives the results of sequential use."""

import os
import sys
import threading

import numpy as np

import quantfinlib
from quantfinlib.clustering import HC
from rv import gens, purity, sims, splits
from rv.core import snapshot
from rv.gens import coin, pick, size
from rv.props.c36 import freeze, same
from rv.props import c39

RULE = "distinct (sets of operations run at the same time, threads, shared or own arguments) and distinct schedules, compared with sequential runs"
REQUIRED = ["mixed_operations", "one_operation", "shared_object", "shared_arguments", "own_arguments", "overlapping_calls", "read_only", "model", "fitted",
            "quasi", "kfold", "walk", "clustering", "bands", "interrupted_often", "long_paths", "scheduled_runs", "context_switches"]
ROOT = os.path.dirname(os.path.abspath(quantfinlib.__file__)) + os.sep
NAMES = sorted(k for k, (_, draws) in purity.OPS.items() if not draws)
WORKERS = 4


def run_threads(mon, jobs, switch):
    """Run the jobs at the same time, each in its own thread; a list of (result, error)."""
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))
    active, overlap, lock = [0], [0], threading.Lock()

    def work(i, job):
        gate.wait()
        with lock:
            active[0] += 1
            overlap[0] = max(overlap[0], active[0])
        try:
            out[i] = (job(), None)
        except Exception as e:  # refused calls are refused by every thread
            out[i] = (None, e)
        with lock:
            active[0] -= 1

    old = sys.getswitchinterval()
    sys.setswitchinterval(switch)
    try:
        ts = [threading.Thread(target=work, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
            mon.check(not t.is_alive(), "a call does not return when it runs next to others")
    finally:
        sys.setswitchinterval(old)
    mon.seen("overlapping_calls", int(overlap[0] > 1))
    mon.calls += len(jobs)
    return out


class Baton:
    """Only the thread that holds the baton runs; it is passed on before randomly chosen lines of the library."""

    def __init__(self, rng, n, share):
        self.rng, self.share, self.live, self.turn = rng, share, set(range(n)), int(rng.integers(n))
        self.cond, self.switches, self.trail, self.stuck = threading.Condition(), 0, 0, 0

    def take(self, i):
        with self.cond:
            if not self.cond.wait_for(lambda: self.turn == i, 3):  # the holder waits for something that this thread has
                self.stuck += 1
                self.turn = i

    def line(self, i, where):
        if self.turn != i or self.rng.random() >= self.share:
            return
        with self.cond:
            others = sorted(self.live - {i})
            if not others:
                return
            self.turn = others[int(self.rng.integers(len(others)))]
            self.switches += 1
            self.trail = hash((self.trail, i, self.turn, where))
            self.cond.notify_all()
        self.take(i)

    def leave(self, i):
        with self.cond:
            self.live.discard(i)
            if self.turn == i and self.live:
                self.turn = min(self.live)
            self.cond.notify_all()


def run_scheduled(mon, rng, jobs):
    """Run the jobs in threads of which one runs at a time, with changes of thread between lines of the library."""
    out = [None] * len(jobs)
    baton = Baton(rng, len(jobs), float(10 ** rng.uniform(-2, 0)) * 0.7)

    def work(i, job):
        def local(frame, event, arg):
            if event == "line":
                baton.line(i, frame.f_lineno)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) else None

        baton.take(i)
        sys.settrace(tracer)
        try:
            out[i] = (job(), None)
        except Exception as e:
            out[i] = (None, e)
        finally:
            sys.settrace(None)
            baton.leave(i)

    ts = [threading.Thread(target=work, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
        mon.check(not t.is_alive(), "a call does not return when it takes turns with others")
    mon.calls += len(jobs)
    mon.seen("scheduled_runs")
    mon.seen("context_switches", baton.switches)
    mon.seen("blocked_switches", baton.stuck)
    mon.signature("schedule", baton.trail)
    return out


def switch_time(mon, rng):
    if coin(rng, 0.7):
        mon.seen("interrupted_often")
        return 1e-6
    return 10.0 ** rng.uniform(-6, -3)


def outcome(job):
    try:
        return job(), None
    except Exception as e:
        return None, e


def agree(mon, got, want, what):
    for (a, ea), (b, eb) in zip(got, want):
        mon.check((ea is None) == (eb is None), f"{what}: {'raised ' + repr(ea)[:200] if ea is not None else 'succeeded'} next to other calls, alone it {'succeeds' if eb is None else 'raises ' + repr(eb)[:200]}")
        if ea is None:
            mon.check(same(a, b), f"{what}: another result next to other calls")


def operations(mon, rng, scheduled=False):
    """Several public functions at once, with the same or separate arguments."""
    threads = pick(rng, [2, 3, 4, 8])
    shared = coin(rng)
    if coin(rng):
        names = [pick(rng, NAMES)] * threads
        mon.seen("one_operation")
    else:
        names = [pick(rng, NAMES) for _ in range(threads)]
        mon.seen("mixed_operations")
    made = {}
    jobs = []
    mon.note(operations=names, shared=shared)
    for name in names:
        if shared and name in made:
            fn, args = made[name]
        else:
            fn, args = made[name] = purity.OPS[name][0](rng)
            if coin(rng, 0.3):
                freeze(args)
                mon.seen("read_only")
        repeat = pick(rng, [1, 3])

        def job(fn=fn, args=args, repeat=repeat):
            for _ in range(repeat):
                r = purity.sequential(fn, args)
            return r

        jobs.append(job)
    before = [snapshot(m[1]) for m in made.values()]
    want = [outcome(j) for j in jobs]
    got = run_scheduled(mon, rng, jobs) if scheduled else run_threads(mon, jobs, switch_time(mon, rng))
    agree(mon, got, want, "/".join(sorted(set(names))))
    mon.check([snapshot(m[1]) for m in made.values()] == before, "arguments modified by concurrent calls")
    mon.seen("shared_arguments" if shared else "own_arguments")
    mon.signature(tuple(sorted(set(names))), threads, shared)


def objects(mon, rng, scheduled=False):
    """One model, splitter, band or clustering object used by several threads at once."""
    kind = pick(rng, c39.KINDS)
    made = c39.make(rng, kind)
    if made is None:
        return
    o, arg = made
    threads = pick(rng, [2, 4, 8])
    args = [arg]
    if kind in ("model", "fitted", "quasi"):  # every thread its own request
        if coin(rng, 0.12) and not scheduled:  # long paths of the same shape, each with its own seed
            threads = 4
            args = [dict(arg, seed=arg["seed"] + i, steps=20000, data=None, dt=1e-5, paths=1, labels={} if "labels" not in arg else dict(label_freq="s", label_start="2001-01-01")) for i in range(4)]
            mon.seen("long_paths")
        else:
            args += [dict(arg, seed=arg["seed"] + i + 1, steps=arg["steps"] + i % 3, paths=1 + (arg["paths"] + i) % 3, dt=0.1 * (i + 2)) for i in range(threads - 1)]
        observed = lambda v, a: c39.observe(kind, v, a)
    else:
        args = [arg] * threads
        if kind == "clustering":  # and its own number of clusters
            args = [dict(arg, k=max(1, arg["k"] + (i % 3) - 1)) for i in range(threads)]
        observed = lambda v, a: c39.observe(kind, v, a)
        if kind == "walk" or kind == "kfold":  # the split counter belongs to the last pass of the object
            observed = lambda v, a: [np.concatenate([x, [-1], y]) for x, y in v.split(a["X"], None, a["groups"])]
    mon.note(kind=kind, cls=type(o).__name__, threads=threads, argument=arg)
    import copy

    fresh = copy.deepcopy(o)
    want = [outcome(lambda a=a: observed(fresh, a)) for a in args]
    jobs = [lambda a=a: observed(o, a) for a in args]
    got = run_scheduled(mon, rng, jobs) if scheduled else run_threads(mon, jobs, switch_time(mon, rng))
    agree(mon, got, want, type(o).__name__)
    mon.seen("shared_object")
    mon.seen(kind)
    mon.signature("object", type(o).__name__, threads, tuple(sorted(arg.get("labels", {}))) if arg else "")


def turns(mon, rng):
    """The same with the changes of thread placed between lines of the library."""
    (operations if coin(rng, 0.4) else objects)(mon, rng, True)


STAGES = [("operations", operations, 1500, 20000), ("objects", objects, 1500, 20000), ("scheduled", turns, 2500, 40000)]
