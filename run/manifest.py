"""Writes MANIFEST.json (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CALL = ("TLA+ specification; TLC model checking of it, the model's calls replayed in the real code, "
        "and calls recorded from the real code judged against the specification by TLC")
TRACE = ("TLA+ specification; TLC model checking of it, its behaviours replayed in the real code "
         "under a scripted server, and the recorded traces validated against it by TLC")
NOTE = ("The specification is explored exhaustively within the bounds given in DESIGN.md; the real "
        "code is held to it on every scenario counted in the evidence file (model families "
        "exhaustively, sweeps of characters, lengths, times and option combinations, seeded random "
        "ones). Trusts TLC, the JDK's SHA-256 and RSA, and the driver's recording.")
TNOTE = ("All interleavings of the modelled calls, answers, clock ticks and cancellations are "
         "explored in the specification within the bounds given in DESIGN.md; behaviours of it are "
         "driven through the real code on a single-threaded runtime with a scripted server and a "
         "virtual clock, and every recorded trace must be a behaviour of the specification. Trusts "
         "TLC and the driver's recording; real parallelism is exercised in C19 only.")
TRACED = {"C11", "C12", "C13", "C14", "C15"}
import sys
sys.path.insert(0, os.path.join(V, "run"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only",
               "source_commits": []},
     "checks": [{"property": i, "quick_cmd": f"python3 run/check.py {i} --tier quick",
                 "thorough_cmd": f"python3 run/check.py {i} --tier thorough",
                 "technique": TRACE if i in TRACED else CALL, "level": "model_checking",
                 "level_note": TNOTE if i in TRACED else NOTE} for i in ids if i in props.PROPS],
     "not_applicable": [{"property": i, "reason": "work in progress: not checked yet"}
                        for i in ids if i not in props.PROPS]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
