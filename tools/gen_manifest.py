#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SCHED = "symbolic execution of both builds of the real code over one symbolic input, with rayon's scheduling decisions as solver variables; z3 decides equality of the results; counterexamples replayed on BLS12-381"
HIST = "symbolic execution of the real code after other calls on symbolic inputs, against a build of the same code without history; z3 decides equality of the results; counterexamples replayed on BLS12-381"
SEC = "symbolic execution of the real code over a symbolic field; the adversary's coefficients are solver unknowns, eliminated exactly by linear algebra over the secrets' monomials, the residual decided by z3; counterexamples replayed on BLS12-381"
SYM = "symbolic execution of the real generic code over a symbolic field and pairing; z3 decides every branch and assertion; counterexamples replayed on BLS12-381"
KANI = "Kani/CBMC bounded model checking of the compiled code (MIR); counterexamples replayed natively"
R1CS = "exact SMT encoding of the constraint system the real circuit generates; z3 decides soundness and completeness"
NOTE = {
 "C01": "All messages and all digit values at the 255-bit width; digit vectors of the listed lengths. Trusts CBMC, and the 256-bit integer model of the scalar field (validated against the real field on every run).",
 "C10": "All field elements and witness assignments for the generated rows at the listed sizes. Completeness uses witness functions learned from real runs and then proved for all values; trusts z3 and the row exporter.",
 "C25": "Holds for all symbolic elements, secrets, draws and (where listed) digits within the stated shapes; same generic-group assumptions as the other properties.",
 "C26": "All secrets; the memory of the dropped key is read back on the same run. Copies the compiler makes while moving a key are not covered.",
 "C27": "Adversary restricted to linear tests over pairings of the published elements (generic group); first message of each pair fixed to listed vectors, the second arbitrary; secrets of colluders fixed to constants; QAP point fixed where proofs are included. Known finding: chunks re-encrypted together share one mask (see known_findings.txt).",
 "C28": "Adversary restricted to known linear combinations of published elements and honest ciphertexts (algebraic group); listed sizes.",
 "C30": "Binding is shown against known linear combinations of the commitment key (generic group); that an encryption has one opening holds without restriction. Listed sizes.",
 "C31": "All inputs and randomness of both calls within the stated sizes; the reference is the sequential build of the same source, which the harness leaves without history. Histories of one to three earlier calls from the listed operations, of the same and of other sizes. Same generic-group assumptions as the other properties.",
 "C24": "All inputs and randomness within the stated sizes; the sequential build, and for the parallel one every order of the first (1 or 3) joins, three orders of the later ones, 1/2/4/16-way splitting. A schedule is an order of whole tasks: interleavings inside a task (locks, atomics) are not modelled. Same generic-group assumptions as the other properties.",
}
SYMNOTE = "Holds for all values of the symbolic field elements, group elements, randomness and small integers within the stated sizes (evidence lists them per harness). Assumes the generic-group reading of curve and pairing, the contract of fixed-base multiplication, non-zero fresh draws; sizes outside the list are not covered."
NA = {}
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the code is generic over the pairing, so the checks instantiate the public API. 'python3 check.py --replay FILE' runs a recorded counterexample against the real code again."}
for p in props:
    i = p["id"]
    if i in NA:
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": KANI if i == "C01" else R1CS if i == "C10" else SCHED if i == "C24" else HIST if i == "C31" else SEC if i in ("C27", "C28", "C30") else SYM, "level": "model_checking", "level_note": NOTE.get(i, SYMNOTE)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
