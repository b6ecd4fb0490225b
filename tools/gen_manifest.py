"""Writes /verif/MANIFEST.json from properties.jsonl and mpv/checks."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(VERIF, "mpv", "checks", i.lower() + ".py")):
        cmd = "/opt/venv/bin/python check.py " + i
        checks.append(dict(
            property=i, quick_cmd=cmd, thorough_cmd=cmd,
            evidence_file="evidence/%s.json" % i,
            technique="property-based testing (Hypothesis) against "
            "independent oracles, shrinking, JSON replay",
            level="exploration",
            level_note="searches generated inputs, finds counterexamples, "
            "does not prove absence; evidence counts cases and classes"))
    else:
        missing.append(dict(property=i, reason="no check written yet"))
json.dump(dict(
    version=1, setup_cmd="/opt/venv/bin/python check.py --setup",
    checks=checks, not_applicable=missing,
    notes="Replay of a violation: /opt/venv/bin/python check.py --replay FILE. "
    "Known findings: known_findings.txt. No hooks in /repo are needed."),
    open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
