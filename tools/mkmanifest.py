#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand): one check per property with a module in pd/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "reference-model monitor over generated declarations and values",
    "C02": "event log of recording formatter probes compared with std's format!",
    "C03": "reference-model monitor over styles and identifiers",
    "C04": "round-trip oracle over generated declarations and values",
    "C05": "independently assembled matcher as run-time oracle over generated declarations and strings",
    "C06": "panic monitor under hostile inputs",
    "C07": "reference-model monitor over generated enums",
    "C08": "plain regex crate as run-time oracle over random user regexes",
    "C09": "reference-model monitor over default/format subsets",
    "C10": "event log of constructor calls and reference-model monitor",
    "C11": "reference-model monitor over presence patterns of opt fields",
    "C12": "event log of instrumented formatters and reference-model monitor",
    "C13": "shape recognisers monitoring published patterns over value ranges",
    "C14": "published pattern compared with FromStr and the declared language at run time",
    "C15": "run-time probes of trait implementation for generated generic types",
    "C16": "stress with racing threads, history checker; Miri and ThreadSanitizer (thorough)",
    "C17": "fault injection at every write position with a prefix monitor",
    "C18": "behaviour trace compared under renaming and hostile scopes",
    "C19": "behaviour trace compared with the library behind another path",
    "C20": "no_std build with allocation counter, trace compared with std build",
    "C21": "compiler acceptance observed for generated invalid declarations and valid controls",
    "C22": "reference-model monitor of error values",
    "C23": "reference-model monitor over collections, delimiters and nesting",
    "C25": "compile errors recorded, and behaviour monitored of the types built from the code they show",
    "C26": "compiler warnings recorded and compared with those of the bare declaration",
    "C27": "allocation and call counters around repeated use and racing first uses",
    "C28": "panic monitor on the derives under damaged attributes",
    "C30": "processor-time and allocation monitor over growing texts",
    "C29": "code of repeated expansions recorded and compared",
    "C24": "file-system state monitor around the script under fault injection",
}
LEVEL = {"C17": "fault_enumeration", "C24": "fault_enumeration"}
NOTE = ("Held on the executions explored (seeded by VERIF_SEED; counts in the evidence file), nothing beyond them. Trusts rustc, std, "
        "the regex crate and the reference model in pd/spec.py and rt/.")
NOTES = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "pd/props/%s.py" % pid.lower())):
        checks.append(dict(property=pid, quick_cmd="python3 pd/check.py %s" % pid,
                           thorough_cmd="VERIF_TIER=thorough python3 pd/check.py %s" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=TECH[pid],
                           level=LEVEL.get(pid, "exploration"), level_note=NOTES.get(pid, NOTE)))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed at the public API. Defects repaired in /repo are listed in known_findings.jsonl.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), [x["property"] for x in na])
