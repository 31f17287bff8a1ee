#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ALGO = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C26", "C29", "C31"]
FUNC = []
ALL = ["C%02d" % i for i in range(1, 32)]
NA = {}
T_ALGO = "TLA+ specification of the algorithm (spec/Algo.tla) model-checked by TLC; histories of the real code (virtual time, random and specification-generated schedules) validated by TLC against it"
N_ALGO = ("TLC exhausts small instances of the specification; every recorded history of the real code must be a behaviour of the "
          "same specification (linearisation points, timers and callbacks chosen by TLC). Schedules and histories of the real code are "
          "sampled, not exhausted. Trusts testing/synctest virtual time and the equivalence of the lock shim.")
T_FUNC, N_FUNC = {}, {}
try:
    from manifest_func import FUNC, T_FUNC, N_FUNC
except ImportError:
    pass
checks = []
for p in ALL:
    if p in ALGO or p in FUNC:
        checks.append(dict(property=p, quick_cmd="python3 run.py " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 run.py " + p,
                           evidence_file="evidence/%s.json" % p,
                           technique=T_ALGO if p in ALGO else T_FUNC[p], level="model_checking",
                           level_note=N_ALGO if p in ALGO else N_FUNC[p]))
    elif p not in NA:
        NA[p] = "not claimed yet: its specification and harness are being built"
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks,
         hooks=dict(guard="none: no hook is committed in /repo",
                    enable="checks build /repo's working tree through 'go test -overlay': a harness package is added and package sync is replaced by a shim with scheduling points, in scratch copies only",
                    source_commits=[]),
         not_applicable=[dict(property=p, reason=NA[p]) for p in sorted(NA)],
         notes="TLA+ with TLC. Genuine defects found are repaired by fix: commits, see KNOWN_FINDINGS.md.")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
