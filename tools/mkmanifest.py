"""regenerate MANIFEST.json from the properties and the registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        P = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; traces of the real code validated against it (%s)" % ", ".join(sorted({s for s, _ in P.runs})),
                       "level": "model_checking",
                       "level_note": registry.NOTES.get(i, registry.NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. spec/ holds the specification, harness/ the recorders, java/ the arithmetic override for TLC."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
