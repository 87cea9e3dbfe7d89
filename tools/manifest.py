#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("monitored execution of the real verifier on generated valid proofs (online constraint monitor)", "exploration"),
 "C02": ("monitored execution with cheating prover and fault-injected hints against a reference verifier", "exploration"),
 "C03": ("monitored execution on exchanged statements against a reference verifier", "exploration"),
 "C04": ("limb fault injection under an online constraint monitor, all places", "exploration"),
 "C05": ("online constraint monitor with reference arithmetic on boundary-heavy operands", "exploration"),
 "C06": ("hint fault injection under an online constraint monitor", "exploration"),
 "C07": ("online monitor of range checks, honest and fault-injected, incl. deferred batches", "exploration"),
 "C08": ("online constraint monitor and hint fault injection against reference arithmetic", "exploration"),
 "C09": ("online constraint monitor and hint fault injection against a naive reference permutation", "exploration"),
 "C10": ("online constraint monitor against a reference with regenerated constants", "exploration"),
 "C11": ("lock-step trace checking of challenger histories against a reference sponge", "exploration"),
 "C12": ("transcript comparison on generated proofs, hint fault injection", "exploration"),
 "C13": ("verdict comparison on proofs made for chosen challenges, single-place faults", "exploration"),
 "C14": ("verdict comparison on solved openings, single-component faults", "exploration"),
 "C15": ("online comparison of gate constraints with independent gate models", "exploration"),
 "C16": ("differential monitoring of the gate reader on generated and mutated descriptions", "exploration"),
 "C17": ("round-trip monitoring of the readers on generated and malformed files", "exploration"),
 "C18": ("race detector, controlled interleavings, input canaries, history checking", "exploration"),
 "C19": ("recorded constraint traces of repeated compilations compared across processes", "exploration"),
 "C20": ("differential execution: monitored run against solved R1CS and SCS", "exploration"),
 "C21": ("shape fault injection at every list of a proof", "fault_enumeration"),
 "C23": ("fault injection on the benchmark tool as a process; exit status, files and output checked offline", "fault_enumeration"),
 "C22": ("fault injection on a synthetic ceremony, file system effects monitored", "fault_enumeration"),
}
N = {
 "default": "Bounded by the workload (counts in the evidence). Trusts the monitor engine (cross-checked against gnark's R1CS/SCS by C20) and the reference, which was written from plonky2's definitions and agrees with the two recorded plonky2 proofs.",
}
props = [json.loads(l) for l in open(D + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isdir(f"{D}/harness/cmd/{i.lower()}"):
        t, l = T[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": N.get(i, N["default"])})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks observe the code through the constraint API it is given (frontend.API) and through its exported functions", "source_commits": []}, "checks": checks, "not_applicable": na,
 "notes": "VERIF_CASE=<case> bash run.sh <ID> runs a single case; a violation's replay file names seed and case."}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1); open(D + "/MANIFEST.json", "a").write("\n")
