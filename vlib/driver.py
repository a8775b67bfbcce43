"""Property-based testing driver.

A *property* is a list of Components.  A Component has

* ``strategy(tier)``  -> a Hypothesis strategy of JSON-able case descriptors, and/or
* ``sweep(tier)``     -> a finite list of case descriptors that is enumerated completely,
* ``check(case, ctx)`` -> raises (anything) iff the property is broken on that case.

The driver shards the generation over worker processes, shrinks failures with Hypothesis, writes the
minimal case as a replay file and writes the evidence file.
"""
import dataclasses
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SLOW = float(os.environ.get("VERIF_SLOW", "0"))
CASE_TIMEOUT = {"quick": 240, "thorough": 900}


class Violation(Exception):
    pass


class Skip(Exception):
    """Raised by a check when an optional internal is not there to be observed."""


class CaseTimeout(BaseException):
    """Not an Exception: nobody but the driver is to handle it."""


@dataclasses.dataclass
class Component:
    name: str
    check: Callable[[Any, "Ctx"], None]
    rule: str
    strategy: Optional[Callable[[str], Any]] = None
    n: Dict[str, int] = dataclasses.field(default_factory=dict)
    sweep: Optional[Callable[[str], List[Any]]] = None
    shards: int = 20


class Ctx:
    """Collects what a case covered."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.nt = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, s):
        self.labels.append(str(s))


def digest(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise CaseTimeout("the case did not finish in time")


def run_case(comp: Component, case, ctx: Ctx):
    """Runs one case, from a state that does not depend on the cases before."""
    import random

    import numpy as np

    seed = int(digest(case)[:8], 16)
    np.random.seed(seed)
    random.seed(seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT[ctx.tier], 20)
    t0 = time.time()
    try:
        comp.check(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if SLOW and time.time() - t0 > SLOW:
            print("SLOW", comp.name, round(time.time() - t0, 1), json.dumps(case)[:600], file=sys.stderr)


def describe(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in tb[::-1]:
        if "/repo/" in fr.filename:
            where = f" (raised under {fr.filename}:{fr.lineno} in {fr.name})"
            break
    msg = str(e)
    if len(msg) > 600:
        msg = msg[:600] + "..."
    return f"{type(e).__name__}: {msg}{where}"


class _Acc:
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.skipped = 0
        self.truncated = False

    def record(self, case, ctx):
        self.evaluations += 1
        d = digest(case)
        self.seen.add(d)
        if ctx.nt and d not in self.nontrivial:
            self.nontrivial.add(d)
            k = len(self.nontrivial)
            if k in (1, 4, 16, 64):
                self.samples.append(case)
        for lab in ctx.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1

    def dump(self):
        return dict(
            evaluations=self.evaluations,
            seen=list(self.seen),
            nontrivial=list(self.nontrivial),
            samples=self.samples,
            labels=self.labels,
            skipped=self.skipped,
            truncated=self.truncated,
        )


def _run_sweep_task(comp, tier, cases, acc, deadline):
    for case in cases:
        if time.time() > deadline:
            acc.truncated = True
            break
        ctx = Ctx(tier)
        try:
            run_case(comp, case, ctx)
        except Skip:
            acc.skipped += 1
            continue
        except (Exception, CaseTimeout) as e:
            return dict(case=case, message=describe(e), slow=isinstance(e, CaseTimeout))
        acc.record(case, ctx)
    return None


def _run_random_task(comp, tier, n, seed, acc, deadline):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings

    for mod in (engine,):
        if hasattr(mod, "MAX_SHRINKING_SECONDS"):
            mod.MAX_SHRINKING_SECONDS = 60 if tier == "quick" else 240

    last: Dict[str, Any] = {}
    failed = [False]

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(comp.strategy(tier))
    def test(case):
        if not failed[0] and time.time() > deadline:
            acc.truncated = True
            return
        ctx = Ctx(tier)
        err = None
        try:
            run_case(comp, case, ctx)
        except Skip:
            acc.skipped += 1
            return
        except CaseTimeout as e:  # repeating it would take as long again
            if not failed[0]:
                last.update(case=case, message=describe(e), slow=True)
            failed[0] = True
            raise
        except Exception as e:
            err = describe(e)
        if err is not None:
            failed[0] = True
            last["case"] = case
            last["message"] = err
            raise Violation(comp.name)
        if not failed[0]:
            acc.record(case, ctx)

    try:
        test()
    except (Violation, CaseTimeout):
        return dict(last)
    except BaseException as e:  # Flaky and friends
        if failed[0]:
            d = dict(last)
            d["message"] += f" [{type(e).__name__} while shrinking]"
            return d
        raise
    return None


def _worker(conn, comp, task, tier):
    sys.stderr.flush()
    acc = _Acc()
    t0 = time.time()
    out = dict(task=task["id"], error=None, failure=None)
    try:
        deadline = t0 + task["budget"]
        if task["kind"] == "sweep":
            out["failure"] = _run_sweep_task(comp, tier, task["cases"], acc, deadline)
        else:
            out["failure"] = _run_random_task(comp, tier, task["n"], task["seed"], acc, deadline)
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    out.update(acc.dump())
    out["wall"] = time.time() - t0
    conn.send(out)
    conn.close()


def _mp_run(comp, tier, case, q):
    try:
        run_case(comp, case, Ctx(tier))
    except Skip:
        q.send(None)
    except (Exception, CaseTimeout) as e:
        q.send(describe(e))
    else:
        q.send(None)
    q.close()


def run_fresh(comp, tier, case):
    """Runs a case in a fresh process; returns the failure message or None."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)
    p = ctx.Process(target=_mp_run, args=(comp, tier, case, w))
    p.start()
    w.close()
    try:
        msg = r.recv()
    except EOFError:
        msg = "the process running the case died"
    p.join()
    return msg


def make_tasks(components, tier, seed):
    budget = 420 if tier == "quick" else 3000
    tasks = []
    for ci, comp in enumerate(components):
        if comp.sweep is not None:
            cases = comp.sweep(tier)
            k = max(1, min(comp.shards, len(cases)))
            for s in range(k):
                tasks.append(
                    dict(kind="sweep", comp=ci, shard=s, cases=cases[s::k], budget=budget)
                )
        if comp.strategy is not None:
            n = comp.n[tier]
            k = max(1, min(comp.shards, n // 5))
            for s in range(k):
                tasks.append(
                    dict(
                        kind="random",
                        comp=ci,
                        shard=s,
                        n=n // k + (1 if s < n % k else 0),
                        seed=(seed * 1_000_003 + ci * 1009 + s) & 0xFFFFFFFF,
                        budget=budget,
                    )
                )
    for i, t in enumerate(tasks):
        t["id"] = i
    return tasks


def run_property(pid, module, tier, seed):
    t0 = time.time()
    components: List[Component] = module.components(tier)
    tasks = make_tasks(components, tier, seed)
    mpctx = mp.get_context("fork")
    pending = list(tasks)
    running = {}
    results = []
    failures = []
    errors = []
    while pending or running:
        while pending and len(running) < WORKERS and not failures and not errors:
            t = pending.pop(0)
            r, w = mpctx.Pipe(False)
            p = mpctx.Process(target=_worker, args=(w, components[t["comp"]], t, tier))
            p.start()
            w.close()
            running[r] = (p, t)
        if not running:
            break
        for r in mp.connection.wait(list(running), timeout=1.0):
            p, t = running.pop(r)
            try:
                out = r.recv()
            except EOFError:
                out = None
            p.join()
            if out is None:
                errors.append((t, f"worker died with exit code {p.exitcode}"))
                continue
            results.append((t, out))
            if out["error"]:
                errors.append((t, out["error"]))
            if out["failure"]:
                failures.append((t, out["failure"]))
        if failures or errors:
            # let nobody else start; stop the others
            for p, t in running.values():
                p.terminate()
            for p, t in running.values():
                p.join()
            running = {}
            pending = []

    wall = time.time() - t0
    write_evidence(pid, module, tier, seed, components, results, failures, wall)
    if failures:
        t, f = failures[0]
        comp = components[t["comp"]]
        msg = f["message"] if f.get("slow") else run_fresh(comp, tier, f["case"])
        rep = dict(
            property=pid,
            component=comp.name,
            tier=tier,
            seed=seed,
            mode="case",
            case=f["case"],
            message=f["message"],
        )
        if msg is None:  # depends on the cases before: replay the shard
            rep["mode"] = "shard"
            rep["task"] = {k: v for k, v in t.items()}
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}-{comp.name}-{digest(rep)}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fh:
            json.dump(rep, fh, indent=1)
        print(f"component {comp.name}: {f['message']}")
        print(f"minimal case: {json.dumps(f['case'])[:3000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        t, e = errors[0]
        print(f"ERROR in component {components[t['comp']].name}: {e}")
        return 2
    return 0


def write_evidence(pid, module, tier, seed, components, results, failures, wall):
    by = []
    samples = []
    tot_ev = 0
    tot_nt = 0
    for ci, comp in enumerate(components):
        outs = [o for t, o in results if t["comp"] == ci]
        ev = sum(o["evaluations"] for o in outs)
        seen = set().union(*[set(o["seen"]) for o in outs]) if outs else set()
        nt = set().union(*[set(o["nontrivial"]) for o in outs]) if outs else set()
        labels = {}
        for o in outs:
            for k, v in o["labels"].items():
                labels[k] = labels.get(k, 0) + v
        s = [x for o in outs for x in o["samples"]][:4]
        by.append(
            dict(
                component=comp.name,
                evaluations=ev,
                distinct=len(seen),
                distinct_nontrivial=len(nt),
                rule=comp.rule,
                exhaustive_part=comp.sweep is not None,
                labels=dict(sorted(labels.items(), key=lambda kv: -kv[1])[:40]),
                skipped=sum(o["skipped"] for o in outs),
                truncated_by_time=any(o["truncated"] for o in outs),
                cpu_s=round(sum(o["wall"] for o in outs), 1),
            )
        )
        samples += [dict(component=comp.name, case=x) for x in s]
        tot_ev += ev
        tot_nt += len(nt)
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=tot_ev,
            distinct_nontrivial=tot_nt,
            rule="; ".join(f"[{c.name}] {c.rule}" for c in components),
            samples=samples,
            components=by,
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(path + ".tmp", path)


def replay(path, modules):
    with open(path) as fh:
        rep = json.load(fh)
    module = modules(rep["property"])
    comps = {c.name: c for c in module.components(rep["tier"])}
    comp = comps[rep["component"]]
    if rep["mode"] == "case":
        msg = run_fresh(comp, rep["tier"], rep["case"])
    else:
        t = rep["task"]
        acc = _Acc()
        dl = time.time() + 3600
        if t["kind"] == "sweep":
            f = _run_sweep_task(comp, rep["tier"], t["cases"], acc, dl)
        else:
            f = _run_random_task(comp, rep["tier"], t["n"], t["seed"], acc, dl)
        msg = f["message"] if f else None
    if msg is None:
        print(f"replay of {path}: the property holds on this case")
        return 0
    print(f"component {comp.name}: {msg}")
    print(f"VIOLATION property={rep['property']} replay={path}")
    return 1
