"""Writes MANIFEST.json: every check module in checks/ is registered; the rest is not_applicable with its reason."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent
PY = "symbolic execution of the Python source (own engine on z3): inputs are symbolic, every branch and assertion is decided by the solver; counterexamples are replayed on the real code"
CIR = "the real generator builds the artefact; its Pauli-frame / stabilizer semantics is encoded with symbolic faults, signs and outcomes and decided by z3; counterexamples are replayed"
CPP = "the C++ sources are recompiled with a symbolic Boolean type (z3++) so that their own loops and branches run on solver terms; counterexamples are replayed natively"
TECH = {
    "C06": "distance queries (cardinality + parity constraints) on the matrices the real constructors return, decided by z3; models replayed on the code object",
    "C07": "the real constraint builder is run with symbolic lights and its z3 output is proved equivalent to the decoding problem; optimality and history decided by z3",
    "C08": CIR, "C09": CIR, "C10": CIR, "C11": CIR, "C13": CIR, "C19": CIR, "C20": CIR,
    "C29": "independent z3 encoding of every competing CNOT circuit / verification, asked for one that beats the circuit the real code returns; a model is simulated on stim before it is reported",
    "C32": "the real plotting code is executed symbolically: values are solver variables, present files and their order are explored; z3 decides that every drawn point equals the stored one for all values; counterexamples are replayed",
    "C31": "every stored circuit: stabilizer tableau plus z3 over all fault combinations; the script: symbolic execution over all option combinations; counterexamples are replayed",
    "C14": CPP, "C15": CPP, "C16": CPP, "C17": CPP, "C18": CPP, "C28": CPP,
}
NOTE = {}
NA = {}
props = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if (V / "checks" / f"{p}.py").exists():
        checks.append({
            "property": p,
            "quick_cmd": f"./run.sh {p} quick",
            "thorough_cmd": f"./run.sh {p} thorough",
            "technique": TECH.get(p, PY),
            "level": "model_checking",
            "level_note": NOTE.get(p, "holds for every value within the bounds listed per harness in the evidence file; outside them nothing is claimed"),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
}, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
