#!/usr/bin/env python3
"""Run the monitors of one property:  run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything observed; 1: VIOLATION printed; 2: inconclusive or error of the check itself.
"""
import os

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "LOKY_MAX_CPU_COUNT"):
    os.environ[_v] = "1" if _v != "LOKY_MAX_CPU_COUNT" else "2"
os.environ.setdefault("PYTHONHASHSEED", "0")

import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("QFL_REPO", "/repo")  # another tree only for trying planted bugs by hand
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [REPO, HERE]

import argparse
import importlib
import json
import logging
import resource
import tempfile
import time
import traceback
import warnings
import multiprocessing as mp


# how often the quick tier repeats its stages, so that every check takes comparable time (about 20 s)
QUICK_REPEAT = dict(C01=7, C02=7, C03=4, C04=3, C05=3, C06=5, C08=3, C09=4, C10=4, C11=4, C12=2, C14=2, C15=1.5, C16=2, C17=2,
                    C18=2, C19=2, C21=4, C22=8, C23=4, C24=2, C25=2, C26=8, C27=1.3, C28=3, C29=8, C30=3, C31=5, C32=10, C33=4,
                    C37=4, C38=5, C40=5, C49=6, C50=3)


def load_known(prop):
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(path):
        if line.startswith("known: property=" + prop + " "):
            rest = line.split(" ", 2)[2].strip()
            key, _, what = rest.partition(" ")
            out[key.removeprefix("key=")] = what
    return out


def case_rng(seed, prop, stage_no, index):
    import numpy as np

    key = [seed & 0x7FFFFFFF, int(prop[1:]), ord(prop[0]), stage_no, index]
    return np.random.default_rng(key), key


def run_cases(mod, prop, known, seed, tier, shard, nshards, deadline):
    from rv.core import Monitor, Violated

    mon = Monitor(prop, known)
    mon.tier = tier
    mon.error = None
    plan = []
    for no, (name, fn, quick, thorough) in enumerate(mod.STAGES):
        total = int(quick * QUICK_REPEAT.get(prop, 1)) if tier == "quick" else max(thorough, int(quick * QUICK_REPEAT.get(prop, 1)))
        plan.append((no, name, fn, list(range(shard, total, nshards))))
    # round robin over the stages in proportion to their size, so that a time cap thins all of them evenly
    order = []
    for no, name, fn, idx in plan:
        order += [((k + 0.5) / max(len(idx), 1), no, name, fn, i) for k, i in enumerate(idx)]
    order.sort(key=lambda t: (t[0], t[1]))
    done_stage = set()
    skipped = 0
    try:
        for _, no, name, fn, i in order:
            if time.time() > deadline and no in done_stage:
                skipped += 1
                continue
            rng, key = case_rng(seed, prop, no, i)
            mon.begin(name, i, key)
            try:
                fn(mon, rng)
                mon.sample()
            except (Violated, Exception) as v:
                from rv.core import describe

                if not isinstance(v, Violated):  # the result could not even be interpreted by the oracle
                    v = "result not interpretable: " + " | ".join(traceback.format_exc().strip().splitlines()[-6:])

                mon.violations.append(
                    dict(
                        property=prop, stage=name, stage_no=no, index=i, seed=seed, tier=tier, message=str(v),
                        context={k: describe(x, 2000) for k, x in mon.context.items()},
                    )
                )
                if len(mon.violations) >= 3:
                    break
            done_stage.add(no)
    except BaseException:  # an error of the harness, never a verdict
        mon.error = f"stage {name} case {i}: " + traceback.format_exc()
    mon.skipped = skipped
    return dict(
        checks=mon.checks, cases=mon.cases, calls=mon.calls, events=mon.events, signatures=mon.signatures,
        samples=mon.samples, violations=mon.violations, known=mon.known_seen, error=mon.error, skipped=skipped,
    )


def worker(conn, *args):
    try:
        conn.send(run_cases(*args))
    except BaseException:
        conn.send(dict(error=traceback.format_exc()))
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    warnings.simplefilter("ignore")
    logging.lastResort = logging.NullHandler()
    scratch = tempfile.mkdtemp(prefix="rv_")
    home = os.getcwd()
    os.chdir(scratch)
    try:
        return _main(a, prop, tier, seed, t0, scratch)
    finally:
        os.chdir(home)
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def violation(prop, v, tag):
    path = os.path.join(HERE, "evidence", "replays", f"{prop}-{tag}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    print(f"VIOLATION property={prop} replay={path}")
    print(f"  {v['stage']} #{v['index']}: {v['message']}")
    for k, x in list(v["context"].items())[:12]:
        print(f"    {k} = {x[:300]}")


def _main(a, prop, tier, seed, t0, scratch):
    known = load_known(prop)
    try:
        import quantfinlib

        assert os.path.realpath(quantfinlib.__file__).startswith(REPO + "/"), quantfinlib.__file__
        mod = importlib.import_module(f"rv.props.{prop.lower()}")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        traceback.print_exc()
        return 2

    if a.replay:
        from rv.core import Monitor, Violated

        v = json.load(open(a.replay))
        no = v["stage_no"]
        rng, key = case_rng(v["seed"], prop, no, v["index"])
        mon = Monitor(prop, known)
        mon.tier = v["tier"]
        mon.begin(v["stage"], v["index"], key)
        try:
            mod.STAGES[no][1](mon, rng)
        except Exception as e:
            if not isinstance(e, Violated):
                traceback.print_exc()
            print(f"VIOLATION property={prop} replay={a.replay}\n  {e}")
            return 1
        print("the case is accepted")
        return 0

    cap = (100 if tier == "quick" else 700) * float(os.environ.get("RV_TIME_SCALE", "1"))
    n = a.workers or (getattr(mod, "WORKERS", 6))
    ctx = mp.get_context("fork")
    procs = []
    for s in range(n):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(w, mod, prop, known, seed, tier, s, n, t0 + cap), daemon=False)
        p.start()
        w.close()
        procs.append((p, r))
    res = []
    for p, r in procs:
        try:
            res.append(r.recv())
        except EOFError:
            res.append(dict(error="a worker process died (out of memory, or a crash in native code)"))
        p.join()

    viol = [v for r in res for v in r.get("violations", [])]
    errors = [r["error"] for r in res if r.get("error")]
    events, sigs, kn = {}, set(), {}
    for r in res:
        for k, c in r.get("events", {}).items():
            events[k] = events.get(k, 0) + c
        for k, c in r.get("known", {}).items():
            kn[k] = kn.get(k, 0) + c
        sigs |= r.get("signatures", set())
    tot = lambda k: sum(r.get(k, 0) for r in res)
    missing = [e for e in getattr(mod, "REQUIRED", []) if not events.get(e)]
    samples = [s for r in res for s in r.get("samples", [])][:6]

    for i, v in enumerate(viol[:3]):
        violation(prop, v, i)
    for k, c in sorted(kn.items()):
        print(f"KNOWN-FINDING: property={prop} {known[k]} (mechanism {k}, observed {c} times)")

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=tot("cases"), distinct_nontrivial=len(sigs), rule=mod.RULE, samples=samples,
            oracle_decisions=tot("checks"), calls_into_code_under_test=tot("calls"),
            events_observed=dict(sorted(events.items())), cases_skipped_by_time_cap=tot("skipped"),
            known_findings_observed=kn, workers=n,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(viol),
    )
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if viol:
        return 1
    if errors:
        print("ERROR of the check:\n" + "\n".join(errors[:2]))
        return 2
    if missing:
        print(f"INCONCLUSIVE property={prop}: never observed {missing}")
        return 2
    print(
        f"held property={prop} tier={tier} seed={seed}: {tot('cases')} executions, {tot('checks')} oracle decisions, "
        f"{len(sigs)} distinct observations, {round(time.time() - t0, 1)} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
