"""Check runner: executes the harnesses of a check module, replays counterexamples, writes evidence."""

from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
sys.path.insert(0, str(VERIF / "lib"))
sys.path.insert(0, str(VERIF / "checks"))


def known_findings():
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text())["findings"] if p.exists() else []


class Harness:
    """One unit of work.

    kind 'sym'    : fn(ctx) run by the symbolic explorer
    kind 'direct' : fn(rep) does its own encoding / solver queries and calls rep.violation(...)
    """

    def __init__(self, name, fn, kind="sym", setup=None, paths=20000, seconds=200, query_ms=60000, must_reach=(), bounds="", functions=(), fallback=True):
        self.name, self.fn, self.kind, self.setup = name, fn, kind, setup
        self.paths, self.seconds, self.query_ms = paths, seconds, query_ms
        self.must_reach, self.bounds, self.functions, self.fallback = must_reach, bounds, functions, fallback


class Rep:
    """Reporter handed to 'direct' harnesses."""

    def __init__(self, h):
        from symx import Stats

        self.h = h
        self.st = Stats()
        self.viol = []
        self.notes = []

    def solve(self, solver, *assumps, what="", quiet=False):
        """check() with statistics; returns the z3 result as a string."""
        t = time.time()
        r = solver.check(*assumps)
        self.st.solver_s += time.time() - t
        self.st.queries += 1
        s = str(r)
        if s == "unknown" and not quiet:
            self.st.unknown += 1
            self.st.truncated.append(f"{self.h.name}: solver gave no answer {what}")
        return s

    def reach(self, label, n=1):
        self.st.reached[label] = self.st.reached.get(label, 0) + n

    def proved(self, label=None):
        self.st.obligations += 1
        self.st.unsat += 1
        if label:
            self.reach(label)

    def trivial(self, label=None):
        self.st.obligations += 1
        self.st.trivial += 1
        if label:
            self.reach(label)

    def violation(self, label, inputs, info=None):
        """Only for counterexamples already reproduced on the real code."""
        self.st.obligations += 1
        self.viol.append({"harness": self.h.name, "label": label, "inputs": inputs, "info": info, "reproduced": True})

    def truncated(self, msg):
        self.st.truncated.append(msg)

    def sample(self, x):
        if len(self.st.samples) < 3:
            self.st.samples.append(x)


def _run_one(args):
    modname, hname, tier = args
    out = {"name": hname, "viol": [], "stats": None, "notes": [], "error": None, "mode": "symbolic", "wall": 0.0}
    t0 = time.time()
    try:
        mod = importlib.import_module(modname)
        h = next(x for x in mod.harnesses(tier) if x.name == hname)
        from symx import Explorer, Stats, replay

        if h.kind == "direct":
            rep = Rep(h)
            h.fn(rep)
            out["viol"] = rep.viol
            out["stats"] = rep.st.as_dict()
            out["samples"] = rep.st.samples
            out["notes"] += rep.notes
            for lab in h.must_reach:
                if not rep.st.reached.get(lab):
                    out["notes"].append(f"vacuity: '{lab}' was not reached")
        else:
            st = Stats()
            ex = Explorer(h.fn, h.name, h.paths, h.seconds, h.query_ms, setup=h.setup, st=st)
            cands = ex.run()
            good, bad = [], []
            for v in cands:
                rp, lab, info = replay(h.fn, v["inputs"])
                if rp:
                    v["label"], v["info"], v["reproduced"] = lab, info, True
                    good.append(v)
                else:
                    v["replay_note"] = lab
                    bad.append(v)
            if ex.unsupported:
                out["notes"].append(f"symbolic mode could not follow: {ex.unsupported[:2]}")
            if bad:
                out["notes"].append(f"{len(bad)} counterexample(s) did not reproduce: {[(b['label'], str(b['info'])[:200], b.get('replay_note')) for b in bad[:2]]}")
            if not good and (bad or ex.unsupported) and h.fallback:
                # fall back: fix every input by solver-guided forking, run the real code on plain values
                out["mode"] = "fork-first"
                st = Stats()
                ex = Explorer(h.fn, h.name, h.paths, h.seconds, h.query_ms, fork_first=True, st=st)
                for v in ex.run():
                    rp, lab, info = replay(h.fn, v["inputs"])
                    if rp:
                        v["label"], v["info"], v["reproduced"] = lab, info, True
                        good.append(v)
                if ex.unsupported:
                    out["notes"].append(f"fork-first could not follow: {ex.unsupported[:2]}")
                    if not good:
                        out["error"] = "no mode could execute this harness"
            out["viol"] = good
            out["stats"] = st.as_dict()
            out["samples"] = st.samples
            for lab in h.must_reach:
                if not st.reached.get(lab):
                    out["notes"].append(f"vacuity: '{lab}' was not reached")
        out["bounds"] = h.bounds
        out["functions"] = list(h.functions)
    except BaseException as e:  # noqa: BLE001
        out["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}"
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, Exception) and any(f.filename.startswith("/repo/") for f in tb) and out["stats"] is None:
            # the library itself raised on an input it must accept
            out["viol"] = [{"harness": hname, "label": "exception", "inputs": {}, "info": out["error"][-1500:], "reproduced": True}]
            out["error"] = None
    out["wall"] = round(time.time() - t0, 2)
    return out


def _child(args, q):
    os.setsid()  # own process group: helpers started by the code under test are ended with it
    r = _run_one(args)
    q.put(r)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _reap(pid):
    try:
        os.killpg(pid, 9)
    except (ProcessLookupError, PermissionError):
        pass


def run_tasks(tasks, jobs, limit):
    """Own little pool: one process per harness, killed when over its limit."""
    res, running = [], {}
    todo = list(tasks)
    t_start = time.time()
    ctx = mp.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            a = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(a, q))
            p.start()
            running[p] = (a, q, time.time())
        for p in list(running):
            a, q, t0 = running[p]
            if not q.empty():
                res.append(q.get())
                p.join(2)
                _reap(p.pid)
                p.join()
                del running[p]
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty():
                    continue
                _reap(p.pid)
                res.append({"name": a[1], "viol": [], "stats": None, "notes": [], "error": f"process ended with {p.exitcode}", "mode": "-", "wall": time.time() - t0})
                del running[p]
            elif time.time() - t_start > limit:
                p.terminate()
                p.join(5)
                _reap(p.pid)
                if p.is_alive():
                    p.kill()
                res.append({"name": a[1], "viol": [], "stats": None, "notes": [f"stopped at the time limit after {time.time()-t0:.0f}s"], "error": None, "mode": "stopped", "wall": time.time() - t0})
                del running[p]
        if time.time() - t_start > limit and todo:
            for a in todo:
                res.append({"name": a[1], "viol": [], "stats": None, "notes": ["not started: time limit"], "error": None, "mode": "not run", "wall": 0})
            todo = []
        time.sleep(0.02)
    return res


def match_known(prop, v, kf):
    for k in kf:
        if k["property"] != prop:
            continue
        if not re.fullmatch(k["harness"], v["harness"]) or not re.fullmatch(k["label"], v["label"]):
            continue
        if "info" in k and not re.search(k["info"], str(v.get("info"))):
            continue
        return k
    return None


def main(prop, tier="quick"):
    t0 = time.time()
    mod = importlib.import_module(prop)
    hs = mod.harnesses(tier)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    limit = getattr(mod, "LIMIT", {"quick": 600, "thorough": 840}).get(tier, 600)
    only = os.environ.get("VERIF_ONLY")
    names = [h.name for h in hs if not only or re.search(only, h.name)]
    assert len(set(names)) == len(names), "duplicate harness name"
    res = run_tasks([(prop, n, tier) for n in names], jobs, limit)
    kf = known_findings()
    new, seen_known, errors = [], {}, []
    for r in res:
        if r["error"]:
            errors.append((r["name"], r["error"]))
        for v in r["viol"]:
            k = match_known(prop, v, kf)
            if k:
                seen_known.setdefault(k["id"], (k, v))
            else:
                new.append(v)
    tot = {}
    for r in res:
        for k, x in (r.get("stats") or {}).items():
            if isinstance(x, (int, float)):
                tot[k] = round(tot.get(k, 0) + x, 3)
    notes = [f"{r['name']}: {n}" for r in res for n in r["notes"]]
    trunc = [t for r in res for t in (r.get("stats") or {}).get("truncated", [])]
    samples = [s for r in res for s in r.get("samples", [])][:6]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)) + int(tot.get("solver_queries", 0)),
            "transitions": int(tot.get("forks", 0)) + int(tot.get("assertions", 0)),
            "traces_validated_against_impl": sum(len(r["viol"]) for r in res),
            "samples": samples,
            "explanation": "states = symbolic paths + solver queries; transitions = solver-decided branches + assertions; "
            "traces_validated_against_impl = counterexamples replayed on the real code (0 when the property holds)",
            "totals": tot,
            "functions_encoded": sorted({f for r in res for f in r.get("functions", [])}),
            "bounds": {r["name"]: r.get("bounds", "") for r in res},
            "harnesses": [
                {"name": r["name"], "mode": r["mode"], "wall_s": r["wall"], **{k: v for k, v in (r.get("stats") or {}).items() if k != "truncated"}} for r in res
            ],
            "not_covered": trunc + notes,
            "outside_the_claim": getattr(mod, "OUTSIDE", []),
            "exhaustive": not trunc and not notes and not errors,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if errors:
        ev["coverage"]["errors"] = errors
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop} {tier}: {len(res)} harnesses, {tot.get('paths', 0):.0f} paths, {tot.get('solver_queries', 0):.0f} solver queries, "
          f"{tot.get('assertions', 0):.0f} assertions ({tot.get('assertions_unsat_by_solver', 0):.0f} by solver, "
          f"{tot.get('assertions_closed_by_normal_form', 0):.0f} by normal form), {tot.get('solver_s', 0):.1f} s in solver, {time.time()-t0:.1f} s")
    for n in notes + trunc:
        print("  note:", n[:600])
    for k, v in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if new:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        seen = set()
        for v in new:
            key = (v["harness"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            fn = rdir / (re.sub(r"[^A-Za-z0-9_.-]+", "_", f"{prop}_{v['harness']}_{v['label']}")[:120] + ".json")
            fn.write_text(json.dumps({"property": prop, **v}, indent=1, default=str))
            print(f"  violated: {v['harness']} / {v['label']}: inputs={json.dumps(v['inputs'], default=str)[:400]} info={str(v.get('info'))[:500]}")
            print(f"VIOLATION property={prop} replay={fn}")
        return 1
    if errors:
        for n, e in errors[:12]:
            print(f"  error in {n}: {e[:900] if n == errors[0][0] else e[:200]}", file=sys.stderr)
        return 2
    return 0


def do_replay(path):
    d = json.loads(Path(path).read_text())
    mod = importlib.import_module(d["property"])
    from symx import replay

    h = next(x for x in mod.harnesses("thorough") if x.name == d["harness"])
    if h.kind == "direct":
        rep = Rep(h)
        h.fn(rep)
        print(rep.viol)
        return 1 if rep.viol else 0
    r = replay(h.fn, d["inputs"])
    print(r)
    return 1 if r[0] else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
