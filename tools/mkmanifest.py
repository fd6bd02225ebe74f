#!/usr/bin/env python3
"""writes MANIFEST.json: claims every property that has a check module"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: driver results checked online against big-integer oracle, operation histories",
 "C02": "runtime monitor: encode/decode round trips checked online against big-integer oracle",
 "C03": "runtime monitor: hash, nonce and MAC traces checked online against hashlib/hmac",
 "C04": "runtime monitor: encryption/decryption/addition traces checked online against big-integer ElGamal",
 "C05": "runtime monitor: hashed ElGamal traces against reference construction, exhaustive-class tampering",
 "C06": "runtime monitor: prover outputs and verifier verdicts against independent verifier, one-equation forgeries",
 "C07": "runtime monitor: prover outputs and verifier verdicts against independent verifier, one-equation forgeries",
 "C08": "runtime monitor: encrypted ballots of generated elections decrypted with an independent oracle",
 "C09": "runtime monitor: refusal oracle over ill-fitting inputs, then recovery monitored on the same mediator",
 "C10": "runtime monitor: verifier verdicts on honest and systematically tampered ballots against independent verifier",
 "C11": "offline checker over recorded ballot-code chains of mediator histories",
 "C12": "offline checker over recorded nonces and commitments (derivation rule and uniqueness)",
 "C13": "ThreadSanitizer plus offline exactly-once checker over recorded precompute events",
 "C14": "runtime monitor: round-trip equality over all formats of generated objects",
 "C15": "taint monitor: known secrets searched in every published document and captured log",
 "C16": "runtime monitor: manifest hashes, internal descriptions and validity against independent model",
 "C17": "runtime monitor: compact/expand traces compared with full encryption",
 "C18": "AddressSanitizer, UBSan and LeakSanitizer under hostile and mutated inputs",
 "C19": "AddressSanitizer/LeakSanitizer with differential monitor of C entry points against C++",
 "C20": "ThreadSanitizer under concurrent workloads plus result comparison with sequential runs",
 "C21": "AddressSanitizer with equality/independence monitor over copies, clones, assignments and moves",
 "C22": "heap monitor: interposed deallocation scans freed memory for known secret values",
 "C23": "entropy-source monitor (interposed, fault injected) plus statistical and uniqueness monitors",
 "C25": "runtime monitor: answers after long histories against a fresh process; content of read objects",
 "C24": "runtime monitor: context hashes and fields against independent oracle",
}
LEVEL = {"C23": "fault_enumeration"}
NOTE = {
 "default": "Holds on every execution observed in the workload described in the evidence file; sampling, not exhaustive. "
            "Trusts the Python/libgmp/hashlib oracle and the harness driver.",
 "san": "Holds on every execution observed; sanitizers report every violation that occurs on an executed path, paths not executed are not covered.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=T[i], level=LEVEL.get(i, "exploration"),
                           level_note=NOTE["san" if i in ("C13", "C18", "C19", "C20", "C21") else "default"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="ELECTIONGUARD_VERIF_HOOKS", enable="lib/build.py compiles /repo's sources with -DELECTIONGUARD_VERIF_HOOKS; no hook is currently needed, all observation is through the public interface, interposed library calls and sanitizers", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
