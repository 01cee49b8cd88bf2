"""Driver for the C++ checks: compiles /repo's current C++ sources with the symbolic Boolean type (lib/cpp), explores the
harnesses with z3 and replays every counterexample on a native build of the same sources."""

from __future__ import annotations

import atexit
import json
import os
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

from runner import Harness

HERE = Path(__file__).resolve().parent / "cpp"
REPO = Path("/repo")
ORDER = ["Code.hpp", "Codes.hpp", "Decoder.hpp", "DecodingSimulator.hpp", "GF2.hpp", "TreeNode.hpp", "UFDecoder.hpp", "UFHeuristic.hpp", "Utils.hpp"]
VARIANTS = {"sym": ["-DSYM"], "fork": ["-DSYM", "-DFORKFIRST"], "native": []}
_built = {}
_dir = None


def _flags():
    return ["-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address", f"-I{_dir}", f"-I{HERE}", f"-I{REPO}/include", f"-I{REPO}/src"]


def build():
    """All three variants, once per run (called in the parent before the harness processes start)."""
    global _dir
    if _dir:
        return
    _dir = tempfile.mkdtemp(prefix="verif-cpp-")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_dir, ignore_errors=True))
    hdr = [f for f in ORDER if (REPO / "include" / f).exists()] + sorted(p.name for p in (REPO / "include").glob("*.hpp") if p.name not in ORDER)
    src = sorted(p.name for p in (REPO / "src").glob("*.cpp"))
    Path(_dir, "repo_sources.hpp").write_text("".join(f'#include "{x}"\n' for x in hdr + src))
    procs = {}
    for v, extra in VARIANTS.items():
        cmd = ["g++", *_flags(), *extra, str(HERE / "harness.cpp"), "-o", f"{_dir}/{v}", *(["-lz3"] if v != "native" else [])]
        procs[v] = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    for v, p in procs.items():
        _, err = p.communicate()
        _built[v] = (p.returncode == 0, "\n".join(ln for ln in err.splitlines() if "error" in ln)[:1500])


def _env():
    return {**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}


def explore(variant, name, paths, seconds, path_seconds, scratch):
    p = subprocess.run([f"{_dir}/{variant}", name, str(paths), str(seconds), str(path_seconds), scratch], capture_output=True, text=True, env=_env(),
                       timeout=seconds + 4 * path_seconds + 60, check=False)
    line = next((ln for ln in p.stdout.splitlines() if ln.startswith('{"paths"')), None)
    if line is None:
        msg = f"{variant} build of '{name}' gave no result (exit {p.returncode}): {p.stdout[-300:]} {p.stderr[-600:]}"
        raise RuntimeError(msg)
    return json.loads(line)


def replay(name, inputs, scratch, limit):
    """(fails, label, info) of the native build on these inputs."""
    try:
        p = subprocess.run([f"{_dir}/native", name, scratch, *inputs], capture_output=True, text=True, env=_env(), timeout=limit, check=False)
    except subprocess.TimeoutExpired:
        return True, "does not terminate", f"no end within {limit} s"
    ln = [x for x in p.stdout.splitlines() if x.startswith(("FAIL ", "PASS", "OUTSIDE"))]
    if ln and ln[-1].startswith("FAIL "):
        label, _, info = ln[-1][5:].partition("\t")
        return True, label, info
    if p.returncode not in (0, 1) or not ln:
        return True, "crash", (p.stderr.strip().splitlines() or ["?"])[-1][:300] + f" (exit {p.returncode})"
    return False, ln[-1], ""


def _run(name, paths, seconds, path_seconds):
    def fn(rep):
        build()
        if not _built["native"][0]:
            msg = "the sources do not compile: " + _built["native"][1]
            raise RuntimeError(msg)
        with tempfile.TemporaryDirectory(prefix="verif-cpp-run-") as scratch:
            good, bad = [], []
            for variant in ("sym", "fork"):
                if not _built[variant][0]:
                    rep.notes.append(f"{variant} build not possible: {_built[variant][1][:300]}")
                    continue
                try:
                    d = explore(variant, name, paths, seconds, path_seconds, scratch)
                except (RuntimeError, subprocess.TimeoutExpired) as e:
                    rep.notes.append(str(e)[:600])
                    continue
                st = rep.st
                st.paths += d["paths"]
                st.queries += d["solver_queries"]
                st.forks += d["forks"]
                st.obligations += d["assertions"]
                st.trivial += d["assertions_closed_by_normal_form"]
                st.unsat += d["assertions_unsat_by_solver"]
                st.unknown += d["unknown"]
                st.solver_s += d["solver_s"]
                for k, v in d["reached"].items():
                    st.reached[k] = st.reached.get(k, 0) + v
                if d["sample"]:
                    rep.sample({"harness": name, "inputs_set": sorted(d["sample"])[:40]})
                good, bad = [], []
                for v in d["viol"]:
                    fails, label, info = replay(name, sorted(v["inputs"]), scratch, 4 * path_seconds)
                    if fails:
                        good.append((label, v["inputs"], info or v["info"]))
                    else:
                        bad.append(v)
                if bad:
                    rep.notes.append(f"{variant}: {len(bad)} counterexample(s) did not reproduce natively: {[(b['label'], b['info'][:100]) for b in bad[:2]]}")
                for t in d["truncated"]:
                    if not t.startswith("stopped after"):
                        rep.truncated(f"{name}: {t}")
                if good or not bad:
                    break
            else:
                if not good:
                    msg = "no build could execute this harness: " + "; ".join(rep.notes)[:600]
                    if not any(_built[v][0] for v in ("sym", "fork")) or not rep.st.paths:
                        raise RuntimeError(msg)
            for label, inputs, info in good:
                rep.violation(label, inputs, info)

    return fn


def harness(name, paths=20000, seconds=120, path_seconds=10, must_reach=(), bounds="", functions=()):
    build()  # in the parent, before the harness processes are forked
    return Harness(name, _run(name, paths, seconds, path_seconds), kind="direct", must_reach=must_reach, bounds=bounds, functions=functions)
