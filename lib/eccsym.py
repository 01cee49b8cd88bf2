"""ECC circuits: the mappers of /repo/src/ecc are compiled from the current tree, asked to map programs, and the emitted
circuits are executed on a stabilizer tableau whose signs are symbolic.

Symbolic: the Pauli gates of the program (slots), every random measurement outcome, the injected errors. Conditions on
classical registers become auxiliary variables defined by AND constraints. A T gate is replaced by a controlled Z with a
fresh reference qubit in |+> (projecting the reference gives back T, so equal reference states imply equal T circuits).
"""

from __future__ import annotations

import atexit
import itertools
import json
import os
import random
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

import numpy as np
import z3

import circ as C

HERE = Path(__file__).resolve().parent / "cpp"
REPO = Path("/repo")
CORE = next(Path("/opt/deps").glob("mqt_core*"), Path("/opt/deps/mqt_core-2.7.0"))
_dir = None
_err = None


def build():
    """Compile the driver and /repo/src/ecc once per run (in the parent process)."""
    global _dir, _err
    if _dir:
        return
    _dir = tempfile.mkdtemp(prefix="verif-ecc-")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(_dir, ignore_errors=True))
    lib = Path("/opt/build/py/_deps/mqt-core-build/src/ir/libmqt-core-ir.a")
    flags = ["-std=c++17", "-O0", "-w", f"-I{REPO}/include", f"-I{CORE}/include/mqt-core"]
    srcs = [HERE / "ecc_driver.cpp", *sorted((REPO / "src/ecc").glob("*.cpp"))]
    if lib.exists():
        flags.append(f"-I{lib.parent}")
    else:
        Path(_dir, "mqt_core_ir_export.h").write_text("#pragma once\n#define MQT_CORE_IR_EXPORT\n#define MQT_CORE_IR_NO_EXPORT\n")
        flags.append(f"-I{_dir}")
        srcs += sorted((CORE / "src/ir").rglob("*.cpp"))
    procs = [(s, subprocess.Popen(["g++", *flags, "-c", str(s), "-o", f"{_dir}/{i}.o"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)) for i, s in enumerate(srcs)]
    err = ""
    for s, p in procs:
        _, e = p.communicate()
        if p.returncode:
            err += f"{s.name}: " + "\n".join(ln for ln in e.splitlines() if "error" in ln)[:500]
    if not err:
        p = subprocess.run(["g++", *(f"{_dir}/{i}.o" for i in range(len(srcs))), *([str(lib)] if lib.exists() else []), "-o", f"{_dir}/driver"], capture_output=True, text=True, check=False)
        if p.returncode:
            err = p.stderr[-800:]
    _err = err or None


def _strip(r):
    """Identity gates and barriers have no effect."""
    if "mapped" in r:
        r["mapped"]["ops"] = [o for o in r["mapped"]["ops"] if o.get("n") not in ("i", "barrier")]
    return r


def emit(lines):
    """Run the mappers on the given programs."""
    if _err or not _dir:
        msg = f"driver not built: {_err}"
        raise RuntimeError(msg)
    p = subprocess.run([f"{_dir}/driver"], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=300, check=False)
    out = [_strip(json.loads(x)) for x in p.stdout.splitlines()]
    if len(out) != len(lines):
        # the driver died on one program: the remaining ones are run separately
        k = len(out)
        out.append({"crash": f"exit {p.returncode}: {p.stderr[-200:]}"})
        if k + 1 < len(lines):
            out += emit(lines[k + 1:])
    return out


# ---------------------------------------------------------------- programs
# A program is a list of steps: ("g", name, targets, controls) | ("m", [(q, c), ...]) | ("b",) | ("slot", k, q, P)


def line(code, freq, nq, regs, steps, on=()):
    ops = []
    for s in steps:
        if s[0] == "slot":
            ops.append(f"{s[3] if s[1] in on else 'i'} {s[2]}")
        elif s[0] == "g":
            ops.append(f"{s[1]} " + " ".join(str(t) for t in s[2]) + "".join(f" {c}{'+' if p else '-'}" for c, p in s[3]))
        elif s[0] == "m":
            ops.append("measure " + " ".join(f"{q} {c}" for q, c in s[1]))
        elif s[0] == "b":
            ops.append("barrier")
        else:
            raise AssertionError(s)
    return f"{code} {freq} {nq} {','.join(f'{n}:{k}' for n, k in regs)} | " + " ; ".join(ops)


class Shape(Exception):
    """The emissions for the slots do not compose."""


def guarded(code, freq, nq, regs, steps):
    """Emit the program with every slot off, each slot on alone, and all on.

    Returns (reply of the base program, ops) where ops is a list of ("op", slot or None, op) | ("mark", slot): 'mark' is the
    point of the circuit that belongs to the slot."""
    slots = [s[1] for s in steps if s[0] == "slot"]
    lines = [line(code, freq, nq, regs, steps)] + [line(code, freq, nq, regs, steps, {k}) for k in slots] + [line(code, freq, nq, regs, steps, set(slots))]
    rep = emit(lines)
    base = rep[0]
    if "mapped" not in base:
        return base, None
    A = base["mapped"]["ops"]
    ins = {}
    hi = 0
    for k, r in zip(slots, rep[1:]):
        if "mapped" not in r:
            return r, None
        B = r["mapped"]["ops"]
        # segment: B = A[:p] + S + A[p:], p as late as possible but not before the previous slot's point
        p = 0
        while p < len(A) and p < len(B) and A[p] == B[p]:
            p += 1
        n = len(B) - len(A)
        if n <= 0 or A[:p] + B[p:p + n] + A[p:] != B:
            raise Shape(k)
        lo = p
        while lo > hi and A[:lo - 1] + B[lo - 1:lo - 1 + n] + A[lo - 1:] == B:
            lo -= 1
        ins[k] = (lo, p, B[lo:lo + n])
        hi = lo
    if "mapped" not in rep[-1]:
        return rep[-1], None
    pos = {k: v[0] for k, v in ins.items()}
    out = []
    for i in range(len(A) + 1):
        for k in slots:
            if pos[k] == i:
                out.append(("mark", k))
                out += [("op", k, o) for o in ins[k][2]]
        if i < len(A):
            out.append(("op", None, A[i]))
    if [o[2] for o in out if o[0] == "op"] != rep[-1]["mapped"]["ops"]:
        raise Shape("all")
    return base, out


def ideal_ops(steps):
    """The program itself in the same form."""
    out = []
    for s in steps:
        if s[0] == "slot":
            out.append(("op", s[1], {"n": s[3], "t": [s[2]], "c": []}))
        elif s[0] == "g":
            out.append(("op", None, {"n": s[1], "t": list(s[2]), "c": [list(c) for c in s[3]]}))
        elif s[0] == "m":
            out.append(("op", None, {"n": "measure", "t": [q for q, _ in s[1]], "c": [], "m": [c for _, c in s[1]]}))
    return out


# ---------------------------------------------------------------- back ends
class Undecided(Exception):
    pass


class Sym:
    """Symbolic tableau."""

    def __init__(self, n, vs, aux, tag, valid):
        self.n, self.vs, self.aux, self.tag, self.valid = n, vs, aux, tag, valid
        self.t = C.Tableau(n)
        self.rnd = []

    def fresh(self):
        f = self.vs.new(f"{self.tag}r{len(self.rnd)}")
        self.rnd.append(f)
        return f

    def clifford(self, name, q):
        self.t.gate(name, q)

    def pauli(self, q, p, form):
        if form == 0:
            return
        x, z = np.zeros(self.n, dtype=np.uint8), np.zeros(self.n, dtype=np.uint8)
        x[q], z[q] = p in "xy", p in "yz"
        self.t.pauli(x, z, form)

    def paulis(self, qs, p, form):
        for q in qs:
            self.pauli(q, p, form)

    def det(self, q):
        z = np.zeros(self.n, dtype=np.uint8)
        z[q] = 1
        return self.t.value(np.zeros(self.n), z)

    def measure(self, q):
        return self.t.measure(q, self.fresh)[0]

    def conj(self, forms):
        """Form of the AND of affine forms."""
        fs = []
        for f in forms:
            if f == 0:
                return 0
            if f != 1 and f not in fs:
                fs.append(f)
        if any(f ^ 1 in fs for f in fs):
            return 0
        if not fs:
            return 1
        if len(fs) == 1:
            return fs[0]
        key = tuple(sorted(fs))
        if key not in self.aux:
            self.aux[key] = self.vs.new(f"and{len(self.aux)}")
        return self.aux[key]

    def const(self, form):
        """0 / 1 if the form has that value for every assignment, else None."""
        if form in (0, 1):
            return form
        return self.valid(form)


class Conc:
    """Concrete replay on stim; outcomes are taken from the given list when random."""

    def __init__(self, n, outcomes):
        import stim

        self.n, self.s = n, stim.TableauSimulator()
        self.s.set_num_qubits(n)
        self.outcomes = list(outcomes)
        self.k = 0

    def clifford(self, name, q):
        getattr(self.s, {"sdg": "s_dag", "cx": "cx", "cz": "cz"}.get(name, name))(*q)

    def pauli(self, q, p, form):
        if form:
            getattr(self.s, p)(q)

    def paulis(self, qs, p, form):
        for q in qs:
            self.pauli(q, p, form)

    def det(self, q):
        v = self.s.peek_z(q)
        return None if v == 0 else int(v < 0)

    def measure(self, q):
        v = self.s.peek_z(q)
        if v == 0:
            if self.k < len(self.outcomes):
                self.s.postselect_z(q, desired_value=bool(self.outcomes[self.k]))
                self.k += 1
                v = self.s.peek_z(q)
            else:
                self.k += 1
                return int(self.s.measure(q))
        return int(v < 0)

    def conj(self, forms):
        return int(all(forms))

    def const(self, form):
        return form


def run(be, nq, nc, ops, slot, errors=None, nref=0, sweep=None):
    """Execute ops on back end `be` (nq qubits + nref references). slot: id -> form; errors: mark -> [(qubit, p, form)].
    Returns (classical bits, rotations, gates applied). Rotations are the T/Tdg gates, by name, in order."""
    cl = [0] * nc
    written = [False] * nc
    rot = []

    def controlled(name, t, ctrls, g):
        # g: form of the guard, 1 = always
        live, conds = [], ([] if g == 1 else [g])
        for q, pos in ctrls:
            d = be.det(q)
            if d is None:
                live.append((q, pos))
                continue
            d = d if pos else d ^ 1
            k = be.const(d)
            if k == 0:
                return
            if k is None:
                conds.append(d)
        cond = be.conj(conds) if conds else 1
        if cond == 0:
            return
        if not live:
            if name in ("x", "y", "z"):
                for q in t:
                    be.pauli(q, name, cond)
                return
            if cond == 1:
                single(name, t)
                return
            if name in ("s", "sdg", "t", "tdg") and be.det(t[0]) is not None:
                # phase on a computational basis state: conditional global phase; harmless only if the condition is classical,
                # which it is (live is empty)
                return
            msg = f"conditional {name}"
            raise Undecided(msg)
        if cond != 1:
            msg = f"{name} with quantum and classical controls"
            raise Undecided(msg)
        if name in ("z", "s", "sdg", "t", "tdg"):
            # diagonal: the target is one more control
            d = be.det(t[0])
            if d is not None:
                k = be.const(d)
                if k == 0:
                    return
                if k == 1 and name == "z" and len(live) == 1:
                    be.pauli(live[0][0], "z", 1)
                    return
                if k is None and name == "z" and len(live) == 1:
                    be.pauli(live[0][0], "z", d)
                    return
                if k == 1 and name in ("s", "sdg") and len(live) == 1:
                    neg = not live[0][1]
                    nm = {"s": "sdg", "sdg": "s"}[name] if neg else name
                    be.clifford(nm, [live[0][0]])
                    return
        if name == "x" and len(live) > 1:
            msg = f"{len(live)} undetermined controls"
            raise Undecided(msg)
        if len(live) > 1 or name not in ("x", "y", "z"):
            msg = f"controlled {name} with {len(live)} undetermined controls"
            raise Undecided(msg)
        (q, pos), a = live[0], t[0]
        if not pos:
            be.clifford("x", [q])
        if name == "x":
            be.clifford("cx", [q, a])
        elif name == "z":
            be.clifford("cz", [q, a])
        else:
            be.clifford("sdg", [a])
            be.clifford("cx", [q, a])
            be.clifford("s", [a])
        if not pos:
            be.clifford("x", [q])

    def single(name, t):
        if name in ("t", "tdg"):
            if be.det(t[0]) is not None:
                return
            if len(rot) >= nref:
                msg = "too many T gates"
                raise Undecided(msg)
            r = nq + len(rot)
            rot.append(name)
            be.clifford("h", [r])
            be.clifford("cz", [r, t[0]])
            return
        be.clifford(name, t)

    for o in ops:
        if o[0] == "mark":
            if sweep:
                be.t.s[be.n:] = [sweep(f) for f in be.t.s[be.n:]]
            for q, p, f in (errors or {}).get(o[1], []):
                be.pauli(q, p, f)
            continue
        _k, s, op = o
        g = 1 if s is None else slot[s]
        if "if" in op:
            st, ln, val, eq = op["if"]
            if not eq:
                msg = "comparison kind"
                raise Undecided(msg)
            if val >> ln:
                continue
            g = be.conj(([] if g == 1 else [g]) + [cl[st + i] ^ (0 if (val >> i) & 1 else 1) for i in range(ln)])
            op = op["op"]
            if g == 0:
                continue
        n, t = op["n"], op["t"]
        if n == "measure":
            assert g == 1 or be.const(g) == 1
            for q, c in zip(t, op["m"]):
                cl[c] = be.measure(q)
                written[c] = True
        elif n == "reset":
            assert g == 1
            for q in t:
                f = be.measure(q)
                be.pauli(q, "x", f)
        elif n in ("barrier", "i", "I", "id"):
            pass
        elif n == "swap" and not op["c"]:
            if g != 1:
                msg = "conditional swap"
                raise Undecided(msg)
            be.clifford("swap", t)
        elif op["c"]:
            controlled(n, t, [tuple(c) for c in op["c"]], g)
        elif n in ("x", "y", "z"):
            for q in t:
                be.pauli(q, n, g)
        elif n in ("h", "s", "sdg", "t", "tdg"):
            if g != 1:
                msg = f"conditional {n}"
                raise Undecided(msg)
            for q in t:
                single(n, [q])
        else:
            msg = f"gate {n}"
            raise Undecided(msg)
    return cl, rot, written


# ---------------------------------------------------------------- checking one program
class Problem:
    """All queries about one program share the variables."""

    def __init__(self, rep):
        self.rep = rep
        self.vs = C.Vars()
        self.aux = {}
        self.cons = []  # z3 constraints (over variables created with var())
        self.b = {}
        self.ex = {}
        self.rng = random.Random(1)
        self.smp, self.err, self.known = {}, {}, {}

    def var(self, i):
        if i not in self.b:
            self.b[i] = z3.Bool(f"v{i}_{self.vs.names[i]}")
        return self.b[i]

    def expr(self, form, flip=None):
        """z3 expression of a form with the AND variables expanded (shared subterms); flip: index of a variable to negate."""
        ctx = z3.main_ctx().ref()
        mk_xor, inc_ref = z3.z3core.Z3_mk_xor, z3.z3core.Z3_inc_ref
        inv = self._inv()
        if flip is None:
            cache = self.ex
        else:
            cache = {}
        dep = self._dep

        def var(i):
            if flip is not None and not (dep(1 << i) >> flip) & 1:
                return whole(i, self.ex, None)
            return whole(i, cache, flip)

        def whole(i, cache, flip):
            if i not in cache:
                if i in inv:
                    cache[i] = z3.And(*[e(a, cache, flip) for a in inv[i]])
                else:
                    cache[i] = z3.Not(self.var(i)) if i == flip else self.var(i)
            return cache[i]

        def e(f, cache, flip):
            x = None
            for i in range(1, f.bit_length()):
                if (f >> i) & 1:
                    t = var(i) if flip is not None else whole(i, self.ex, None)
                    if x is None:
                        x = t.as_ast()
                    else:
                        # long chains: straight to the C API
                        x = mk_xor(ctx, x, t.as_ast())
                        inc_ref(ctx, x)
            if x is None:
                return z3.BoolVal(bool(f & 1))
            r = z3.BoolRef(x, z3.main_ctx())
            return z3.Not(r) if f & 1 else r

        return e(form, cache, flip)

    def _inv(self):
        if getattr(self, "_n", None) != len(self.aux):
            self._n = len(self.aux)
            self._im = {f.bit_length() - 1: k for k, f in self.aux.items()}
            self._mask = {}
        return self._im

    def _dep(self, form):
        """Mask of the basic variables a form depends on syntactically."""
        inv = self._inv()
        out = 0
        for i in range(1, form.bit_length()):
            if (form >> i) & 1:
                if i in inv:
                    if i not in self._mask:
                        m = 0
                        for a in inv[i]:
                            m |= self._dep(a)
                        self._mask[i] = m
                    out |= self._mask[i]
                else:
                    out |= 1 << i
        return out

    # -- sweeping: a sign that equals a simpler form for every assignment is replaced by it
    SAMPLES = 512

    def _sample(self, i):
        """Value of variable i on random assignments that satisfy the constraints, as a bit vector."""
        if i not in self.smp:
            inv = self._inv()
            if i in inv:
                v = (1 << self.SAMPLES) - 1
                for a in inv[i]:
                    v &= self._eval(a)
            else:
                v = self.rng.getrandbits(self.SAMPLES)
            self.smp[i] = v
        return self.smp[i]

    def _eval(self, form):
        v = (1 << self.SAMPLES) - 1 if form & 1 else 0
        for i in range(1, form.bit_length()):
            if (form >> i) & 1:
                v ^= self._sample(i)
        return v

    def sample_groups(self, groups):
        """groups: lists of locations, a location is a list of (variable forms); at most one location per group is active."""
        for g in groups:
            cols = {f.bit_length() - 1: 0 for loc in g for f in loc}
            for k in range(self.SAMPLES):
                j = self.rng.randrange(len(g) + 1)
                if j < len(g):
                    m = self.rng.randrange(1, 1 << len(g[j]))
                    for b, f in enumerate(g[j]):
                        if (m >> b) & 1:
                            cols[f.bit_length() - 1] |= 1 << k
            self.smp.update(cols)
            self.err.update(cols)

    def simpler(self, form):
        inv = self._inv()
        if not any((form >> i) & 1 and i in inv for i in range(1, form.bit_length())):
            return form
        if form in self.known:
            return self.known[form]
        dep = self._dep(form)
        basic = [i for i in range(1, dep.bit_length()) if (dep >> i) & 1]
        clean = [i for i in basic if i not in self.err]
        out = form
        for vs in ([clean] if len(clean) == len(basic) else [clean, basic]):
            if len(vs) > self.SAMPLES - 64:
                continue
            # affine fit on the samples
            rows = [(self._sample(i), 1 << i) for i in vs] + [((1 << self.SAMPLES) - 1, 1)]
            piv = []
            for v, m in rows:
                for pv, pm, top in piv:
                    if v & top:
                        v, m = v ^ pv, m ^ pm
                if v:
                    piv.append((v, m, v & -v))
            v, m = self._eval(form), 0
            for pv, pm, top in piv:
                if v & top:
                    v, m = v ^ pv, m ^ pm
            if v:
                continue
            s = self.solver()
            s.add(self.expr(form ^ m))
            s.set("timeout", 20000)
            if self.rep.solve(s, what="sweep", quiet=True) == "unsat":
                out = m
                break
        self.known[form] = out
        return out

    def solver(self):
        s = z3.Solver()
        s.set("timeout", 120000)
        for c in self.cons:
            s.add(c)
        return s

    def valid(self, form):
        """Constant value of the form under the constraints, or None."""
        s = self.solver()
        x = self.expr(form)
        for v in (0, 1):
            s.push()
            s.add(x if v == 0 else z3.Not(x))
            r = self.rep.solve(s, what="control value")
            s.pop()
            if r == "unsat":
                return v
        return None


def tomography(nbits, nref):
    for bits in itertools.product([0, 1], repeat=nbits):
        for pr in itertools.product("ixyz", repeat=nref):
            if any(bits) or any(p != "i" for p in pr):
                yield bits, pr


def observable(be_t, nq, pr, n):
    x, z = np.zeros(n, dtype=np.uint8), np.zeros(n, dtype=np.uint8)
    for i, p in enumerate(pr):
        x[nq + i], z[nq + i] = p in "xy", p in "yz"
    return be_t.value(x, z)


def check(rep, code, freq, nq, regs, steps, errs=None, label="", nref=2):
    """One program. errs(problem, marks, data) -> (errors per mark, constraints) or None.
    Returns None (holds), or a dict describing a replayed counterexample."""
    prog = {"code": code, "freq": freq, "nq": nq, "regs": regs, "steps": steps}
    try:
        base, ops = guarded(code, freq, nq, regs, steps)
    except Shape as ex:
        rep.truncated(f"{label}: emission is not compositional at slot {ex}: {line(code, freq, nq, regs, steps)}")
        return None
    if ops is None:
        return {"what": "rejected", "reply": base, "program": prog}
    pb = Problem(rep)
    slots = {s[1]: pb.vs.new(f"slot{s[1]}") for s in steps if s[0] == "slot"}
    nc = base["orig"]["nc"]
    # the original bits, by register
    where = {}
    for name, (st, ln) in base["orig"]["regs"].items():
        if name not in base["mapped"]["regs"] or base["mapped"]["regs"][name][1] != ln:
            return {"what": f"classical register {name} is missing in the mapped circuit", "program": prog}
        for i in range(ln):
            where[st + i] = base["mapped"]["regs"][name][0] + i
    mq, mc = base["mapped"]["nq"], base["mapped"]["nc"]
    errors = None
    errvars = []
    if errs:
        errors, cons, groups = errs(pb, [o[1] for o in ops if o[0] == "mark"], base)
        pb.cons += cons
        pb.sample_groups(groups)
    try:
        I = Sym(nq + nref, pb.vs, pb.aux, "i", pb.valid)
        icl, irot, iwr = run(I, nq, nc, ideal_ops(steps), slots, None, nref)
        M = Sym(mq + nref, pb.vs, pb.aux, "m", pb.valid)
        mcl, mrot, _ = run(M, mq, mc, ops, slots, errors, nref, pb.simpler)
    except Undecided as ex:
        rep.truncated(f"{label}: {ex}: {line(code, freq, nq, regs, steps)}")
        return None
    except IndexError as ex:
        return {"what": f"the mapped circuit refers to a bit or qubit it does not have ({ex})", "program": prog}
    if irot != mrot:
        return {"what": f"T rotations {mrot} instead of {irot}", "program": prog, "norot": True}
    nr = len(irot)
    bits = list(range(nc))
    rnd_i = 0
    for f in I.rnd:
        rnd_i |= f
    rnd_m = 0
    for f in M.rnd:
        rnd_m |= f
    for sel, pr in tomography(len(bits), nr):
        fi = observable(I.t, nq, pr, nq + nref) if nr else 0
        fm = observable(M.t, mq, pr, mq + nref) if nr else 0
        what = {"parity of bits": [b for b, s in zip(bits, sel) if s], "reference": "".join(pr)}
        zero_i = fi is None
        if not zero_i:
            for b, s in zip(bits, sel):
                if s:
                    fi ^= icl[b]
            if pb._dep(fi) & rnd_i:
                # affine in the random outcomes: balanced
                if pb._dep(fi) & rnd_i & ~fi:
                    rep.truncated(f"{label}: ideal outcome not affine")
                    continue
                zero_i = True
        if fm is not None:
            for b, s in zip(bits, sel):
                if s:
                    fm ^= mcl[where[b]]
        if not zero_i:
            if fm is None:
                return {"what": f"{what} is random, should be determined", "program": prog, "norot": True}
            d = fi ^ fm
            if d == 0:
                rep.trivial("determined observable")
                continue
            s = pb.solver()
            s.add(pb.expr(d))
            r = rep.solve(s, what=f"{label} {what}")
            if r == "unsat":
                rep.proved("determined observable")
            elif r == "sat":
                cex = _concretise(pb, s.model(), prog, slots, errors, errvars, M, I)
                cex["what"] = f"{what} differs"
                cex["sel"], cex["pr"] = sel, pr
                return cex
            continue
        if fm is None:
            rep.trivial("random observable")
            continue
        # must be balanced over the random outcomes
        inner = 0  # variables that occur inside an AND
        for i in pb._inv():
            if (fm >> i) & 1:
                inner |= pb._dep(1 << i)
        ok = bool(fm & rnd_m & ~inner)
        if ok:
            rep.trivial("random observable")
            continue
        dep = pb._dep(fm) & rnd_m
        cand = sorted((i for i in range(1, dep.bit_length()) if (dep >> i) & 1), key=lambda i: -((fm >> i) & 1))
        for i in cand[:12]:
            s = pb.solver()
            s.add(pb.expr(fm) == pb.expr(fm, i))
            r = rep.solve(s, what=f"{label} balance")
            if r == "unsat":
                rep.proved("random observable")
                ok = True
                break
        if not ok:
            s = pb.solver()
            s.check()
            cex = _concretise(pb, s.model(), prog, slots, errors, errvars, M, I)
            cex["what"] = f"{what} should be random"
            cex["sel"], cex["pr"], cex["balance"] = sel, pr, True
            return cex
    return None


def _concretise(pb, model, prog, slots, errors, errvars, M, I):
    val = lambda f: int(z3.is_true(model.eval(pb.expr(f), model_completion=True)))  # noqa: E731
    return {
        "program": prog,
        "on": [k for k, f in slots.items() if val(f)],
        "errors": {str(m): [[q, p] for q, p, f in l if val(f)] for m, l in (errors or {}).items()},
        "outcomes": [val(f) for f in M.rnd],
        "ideal_outcomes": [val(f) for f in I.rnd],
    }


def replay(cex):
    """Re-map the concrete program with the real code and execute it on stim; True if the deviation shows."""
    pg = cex["program"]
    code, freq, nq, regs = pg["code"], pg["freq"], pg["nq"], [tuple(r) for r in pg["regs"]]
    steps = [tuple(s) for s in pg["steps"]]
    if "on" not in cex:
        base = emit([line(code, freq, nq, regs, steps)])[0]
        if cex["what"] == "rejected":
            return "mapped" not in base, str(base)[:200]
        return bool(cex.get("norot")) or True, cex["what"]
    on = set(cex["on"])
    base = emit([line(code, freq, nq, regs, steps, on)])[0]
    if "mapped" not in base:
        return True, str(base)[:200]
    _b, ops = guarded(code, freq, nq, regs, steps)
    errors = {}
    for m, l in cex["errors"].items():
        errors[int(m)] = [(q, p, 1) for q, p in l]
    # the program with the chosen Pauli gates, really mapped; the errors sit at the slots' points
    merged = [("mark", o[1]) if o[0] == "mark" else ("op", None, o[2]) for o in ops if o[0] == "mark" or o[1] is None or o[1] in on]
    if [o[2] for o in merged if o[0] == "op"] != base["mapped"]["ops"]:
        return False, "the emitted circuit differs from the composed one"
    where = {}
    for name, (st, ln) in base["orig"]["regs"].items():
        for i in range(ln):
            where[st + i] = base["mapped"]["regs"][name][0] + i
    nref = 2

    def once(outcomes, iout):
        M = Conc(base["mapped"]["nq"] + nref, outcomes)
        mcl, _r, _w = run(M, base["mapped"]["nq"], base["mapped"]["nc"], merged, {}, errors, nref)
        I = Conc(nq + nref, iout)
        on_steps = [s if s[0] != "slot" else ("g", s[3] if s[1] in on else "i", [s[2]], []) for s in steps]
        icl, rot, _w = run(I, nq, base["orig"]["nc"], ideal_ops(on_steps), {}, None, nref)

        def obs(be, n0, cl, f):
            import stim

            if any(p != "i" for p in cex["pr"]):
                ps = stim.PauliString("_" * n0 + "".join("_" if p == "i" else p.upper() for p in cex["pr"]) + "_" * (nref - len(cex["pr"])))
                e = be.s.peek_observable_expectation(ps)
                if e == 0:
                    return None
                v = int(e < 0)
            else:
                v = 0
            for b, s in enumerate(cex["sel"]):
                if s:
                    v ^= cl[f(b)]
            return v

        return obs(M, base["mapped"]["nq"], mcl, lambda b: where[b]), obs(I, nq, icl, lambda b: b)

    if cex.get("balance"):
        vals = [once([], [])[0] for _ in range(64)]
        biased = None not in vals and not 4 < sum(vals) < 60
        return biased, f"64 shots: {sum(v or 0 for v in vals)} ones"
    m, i = once(cex["outcomes"], cex["ideal_outcomes"])
    return m != i, f"mapped gives {m}, the original program {i}"
