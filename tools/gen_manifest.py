#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties (those whose monitor is registered in harness/)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claimed = set()
for f in glob.glob(V + "/harness/*.cpp"):
    claimed |= set(re.findall(r"^PROPERTY\((C\d\d)\)", open(f).read(), re.M))
TECH = {
    "C01": "ASan+UBSan (no recovery), valgrind memcheck and comparison of results between differently filled memories over a catalogue of every public operation with hostile inputs",
    "C25": "ThreadSanitizer with concurrent threads over shared inputs, results compared bit-exact with a sequential run",
}
DEF = "online monitors against an independent double precision reference model, run under ASan+UBSan"
SPEC = {
    "C02": "range monitor on every colour produced by a catalogue of all operations with ordinary and hostile inputs, under ASan+UBSan",
    "C03": "bit-exact before/after snapshots of every argument around each operation of the catalogue, plus repetition, under ASan+UBSan",
    "C24": "state-machine monitor: random construct/copy/assign/set/compare histories against a value model, under ASan+UBSan",
    "C12": "random and exhaustive small-shape matrices against an independent linear-algebra oracle, under ASan+UBSan",
    "C09": "random part histories against a model of the curve, transfer functions against published definitions, under ASan+UBSan",
}
NOTE = ("Held on every execution explored: the real library code is run on exhaustively enumerated small domains, directed corner cases and seeded random "
        "workloads while monitors judge every result. Trusts the reference models in /verif/harness (written from published definitions), the compiler and "
        "the sanitizers; deviations below single precision rounding, widened by the measured condition of the formula, are not seen.")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": TECH.get(p["id"]) or SPEC.get(p["id"]) or DEF, "level": "exploration", "level_note": NOTE}
                for p in props if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": "monitor not built yet"} for p in props if p["id"] not in claimed],
     "notes": "No hooks were needed in /repo: every guarantee is observable through the public API. Library and harness are rebuilt from the working tree by every check."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", [x["property"] for x in m["not_applicable"]])
