"""Runs the workloads of one property, merges what the monitors observed,
shrinks a violating history, writes replay and evidence files."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor

from . import runtime
from .runtime import Ctx, COUNTER, Inconclusive, StepLimit, Violation, short

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    """A workload plus its monitors.

    `gen(r)` makes a configuration and a list of operations out of a seeded
    source; `run(ctx, cfg, ops)` applies them to the real code under the
    monitors.  Dropping operations must always leave a valid workload, which is
    what makes shrinking possible."""

    name = "?"
    required = ()  # events that have to be observed for a conclusive run

    def gen(self, r):
        raise NotImplementedError

    def run(self, ctx, cfg, ops):
        raise NotImplementedError


def case_seed(seed, pid, name, k):
    h = hashlib.sha256(f"{seed}/{pid}/{name}/{k}".encode()).hexdigest()
    return int(h[:15], 16)


def run_case(scn, cseed, keep=None, ctx=None):
    """Runs one case. Returns (verdict, message, ctx)."""
    ctx = ctx or Ctx()
    ctx.log.clear()
    r = random.Random(cseed)
    cfg, ops = scn.gen(r)
    if keep is not None:
        ops = [ops[i] for i in keep if i < len(ops)]
    runtime.seed_all(cseed)
    try:
        scn.run(ctx, cfg, ops)
        return "ok", "", ctx, len(ops)
    except Violation as e:
        return "violation", str(e), ctx, len(ops)
    except Inconclusive as e:
        return "inconclusive", str(e), ctx, len(ops)
    except StepLimit as e:  # while a monitor was looking
        return "violation", f"observing never finished, inside {e.args[0]}", ctx, len(ops)
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()[-6:]
        if runtime.in_extra(e.__traceback__) or not isinstance(e, AttributeError):
            return ("violation",
                    f"observing the instance failed with {type(e).__name__}: "
                    f"{short(str(e))} [{' | '.join(t.strip() for t in tb[-4:])}]", ctx, len(ops))
        return "inconclusive", "harness: " + " | ".join(tb), ctx, len(ops)
    finally:
        COUNTER.limit = float("inf")


def _limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _worker(args):
    pid, scns, seed, wid, nw, deadline = args
    _limit_memory()
    runtime.install()
    ctx = Ctx()
    out = {"cases": Counter(), "bad": None, "inconclusive": [], "samples": [],
           "ops": 0, "cut": 0}
    for scn, n in scns:
        for k in range(wid, n, nw):
            if time.monotonic() > deadline:
                out["cut"] += 1
                break
            verdict, msg, _, nops = run_case(scn, case_seed(seed, pid, scn.name, k), None, ctx)
            out["cases"][scn.name] += 1
            out["ops"] += nops
            if verdict == "violation":
                out["bad"] = (scn.name, k, msg)
                break
            if verdict == "inconclusive":
                out["inconclusive"].append((scn.name, k, msg))
            elif k == 0:
                out["samples"].append({"scenario": scn.name, "case": 0,
                                       "operations": ctx.transcript(12)})
        if out["bad"]:
            break
    out["events"] = ctx.events
    out["states"] = ctx.states
    out["judged"] = ctx.judged
    out["max_steps"] = ctx.max_steps
    out["lines"] = COUNTER.lines
    return out


def shrink(scn, cseed, budget=1500, secs=40):
    """ddmin over the operations of a violating case."""
    _, ops = scn.gen(random.Random(cseed))
    keep = list(range(len(ops)))
    t0, tries = time.monotonic(), 0
    n = 2
    while len(keep) >= 2 and tries < budget and time.monotonic() - t0 < secs:
        chunk = max(1, len(keep) // n)
        reduced = False
        for i in range(0, len(keep), chunk):
            cand = keep[:i] + keep[i + chunk:]
            tries += 1
            if tries >= budget or time.monotonic() - t0 > secs:
                break
            if run_case(scn, cseed, cand)[0] == "violation":
                keep, reduced = cand, True
                n = max(n - 1, 2)
                break
        if not reduced:
            if chunk == 1:
                break
            n = min(len(keep), n * 2)
    if len(keep) == 1 and run_case(scn, cseed, [])[0] == "violation":
        keep = []
    return keep


def source_lines():
    """Executable lines per file of the code under test (for reach evidence)."""
    total = {}
    for d, _, files in os.walk(runtime.EXTRA_DIR):
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            try:
                code = compile(open(p, encoding="utf-8").read(), p, "exec")
            except SyntaxError:
                continue
            lines, todo = set(), [c for c in code.co_consts if hasattr(c, "co_lines")]
            while todo:
                c = todo.pop()
                is_class = c.co_name[:1].isupper() and not c.co_flags & 0x2
                if c.co_flags & 0x2:  # functions only: class bodies run at import
                    lines.update(l for _, _, l in c.co_lines()
                                 if l and l != c.co_firstlineno)
                todo.extend(k for k in c.co_consts if hasattr(k, "co_lines"))
            total[os.path.relpath(p, runtime.EXTRA_DIR)] = lines
    return total


def load_findings():
    """Known findings: the fixed ones suppress nothing and aren't loaded."""
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(path))["findings"]
    except FileNotFoundError:
        return []


def run_property(pid, prop, seed, tier, workers):
    t0 = time.monotonic()
    mult = prop[tier]
    scns = [(s, max(1, int(n * mult))) for s, n in prop["scenarios"]]
    # a run cut short by its time limit isn't believed, whatever it saw
    deadline = t0 + (780 if tier == "quick" else 3000)
    runtime.install()
    with ProcessPoolExecutor(workers, mp.get_context("fork")) as pool:
        parts = list(pool.map(_worker, [(pid, scns, seed, w, workers, deadline)
                                        for w in range(workers)]))
    events, states, lines, cases = Counter(), set(), set(), Counter()
    bad, inconc, samples, ops, cut, max_steps, judged = [], [], [], 0, 0, 0, 0
    for p in parts:
        events += p["events"]
        states |= p["states"]
        lines |= p["lines"]
        cases += p["cases"]
        inconc += p["inconclusive"]
        samples += p["samples"]
        ops += p["ops"]
        judged += p["judged"]
        cut += p["cut"]
        max_steps = max(max_steps, p["max_steps"])
        if p["bad"]:
            bad.append(p["bad"])
    status, violations = 0, 0
    if bad:
        order = [s.name for s, _ in scns]
        name, k, msg = min(bad, key=lambda b: (order.index(b[0]), b[1]))
        status, violations = 1, len(bad)
        replay = write_replay(pid, dict((s.name, s) for s, _ in scns)[name], seed, k, msg)
        print(f"property {pid}: {replay['message']}")
        for line in replay["operations"][-12:]:
            print("   ", line)
        print(f"VIOLATION property={pid} replay={replay['path']}")
    findings = []
    for f in load_findings():
        if f["property"] == pid:
            hit = prop["findings"][f["id"]](f)
            if hit == "violation":
                findings.append(f["id"])
                print(f"KNOWN-FINDING: property={pid} {f['what']}")
    total = source_lines()
    focus = prop.get("files") or sorted(total)
    reach = {}
    hit_by_file = {}
    for f, l in lines:
        hit_by_file.setdefault(f, set()).add(l)
    for f in focus:
        t = total.get(f, set())
        reach[f] = f"{len(t & hit_by_file.get(f, set()))}/{len(t)} executable lines"
    required = set(prop.get("required", ()))
    for s, _ in scns:
        required |= set(s.required)
    missing = sorted(e for e in required if not events[e])
    n_cases = sum(cases.values())
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": judged,
            "distinct_nontrivial": len(states),
            "rule": prop["rule"] + " An evaluation is a state or answer the monitors judged; "
                    "distinct_nontrivial is how many different ones there were (at most "
                    "300000 a worker are kept).",
            "cases": n_cases,
            "samples": samples[:4],
            "operations_executed": ops,
            "monitored_events": dict(sorted(events.items())),
            "cases_per_scenario": dict(sorted(cases.items())),
            "source_reach": reach,
            "max_steps_in_one_operation": max_steps,
            "inconclusive_cases": len(inconc),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
    }
    if findings:
        evidence["coverage"]["known_findings_reproduced"] = findings
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    if status == 0:
        if cut:
            print(f"INCONCLUSIVE property={pid}: out of time before the workload ended")
            status = 2
        elif missing or not judged:
            print(f"INCONCLUSIVE property={pid}: never observed {missing}")
            status = 2
        elif len(inconc) * 10 > n_cases:
            print(f"INCONCLUSIVE property={pid}: {len(inconc)} of {n_cases} cases, "
                  f"e.g. {inconc[0]}")
            status = 2
        else:
            print(f"property {pid} held: {n_cases} cases, {ops} operations, "
                  f"{sum(events.values())} events, {len(states)} distinct states, "
                  f"{evidence['wall_s']} s")
        if inconc:
            print(f"  inconclusive cases: {len(inconc)}, first: {inconc[0]}")
    return status


def write_replay(pid, scn, seed, k, msg):
    cseed = case_seed(seed, pid, scn.name, k)
    keep = shrink(scn, cseed)
    verdict, m2, ctx, _ = run_case(scn, cseed, keep)
    if verdict != "violation":  # can't happen for deterministic code
        keep, (verdict, m2, ctx, _) = None, run_case(scn, cseed)
        m2 = m2 or msg
    rec = {
        "property": pid, "scenario": scn.name, "seed": seed, "case": k,
        "case_seed": cseed, "keep": keep, "message": m2,
        "operations": ctx.transcript(80), "reproduced": verdict == "violation",
        "replay_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --replay <this file>",
    }
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{scn.name}-{k}.json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, ensure_ascii=False)
    rec["path"] = path
    return rec


def replay(pid, prop, path):
    rec = json.load(open(path))
    scn = {s.name: s for s, _ in prop["scenarios"]}[rec["scenario"]]
    runtime.install()
    verdict, msg, ctx, _ = run_case(scn, rec["case_seed"], rec["keep"])
    for line in ctx.transcript(200):
        print("   ", line)
    print(f"{verdict}: {msg}")
    return 1 if verdict == "violation" else 0
