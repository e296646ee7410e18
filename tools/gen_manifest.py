"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "property-based differential testing (hypothesis) against scikit-learn", "C02": "property-based differential testing with threshold probes",
    "C03": "property-based differential testing with threshold probes", "C04": "property-based differential testing against xgboost",
    "C05": "property-based differential testing", "C06": "property-based differential testing", "C07": "property-based differential testing",
    "C08": "property-based differential testing", "C09": "property-based differential testing on generated documents",
    "C10": "property-based differential testing of generated compositions", "C11": "generated model files and texts, differential against the native library",
    "C12": "property-based testing, differential against a bare interpreter", "C13": "metamorphic property-based testing (sparse = dense)",
    "C14": "metamorphic property-based testing (batch = records)", "C15": "stateful property-based testing of call histories",
    "C16": "generated configurations: must-refuse / must-agree / either", "C17": "generated malformed inputs (must be refused)",
    "C18": "property-based invariants of distributions at generated magnitudes", "C19": "property-based differential testing against numpy",
    "C20": "generated version strings against an independent ordering",
    "C21": "property-based differential testing over generated histories of the source model",
    "C22": "metamorphic property-based testing (numeric types)",
    "C23": "property-based differential testing on generated texts",
    "C24": "metamorphic property-based testing (state layouts of earlier releases)",
    "C25": "property-based testing of the report against recording stand-ins",
}
SEARCH = "Generated-input search with shrinking; no violation among the generated cases, not a proof. "


def main():
    import sys
    sys.path.insert(0, HERE)
    from vf.propinfo import INFO
    checks = []
    for pid in sorted(INFO):
        cmd = "/opt/venv/bin/python check.py %s" % pid
        checks.append({"property": pid, "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                       "technique": T[pid], "level": "exploration",
                       "level_note": SEARCH + "Assumes: " + ("; ".join(INFO[pid]["assumptions"]) or "nothing beyond the generators") + "."})
    doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the checks use the package's public API only. Known findings and repaired defects: known_findings.json."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
