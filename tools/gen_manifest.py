#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present in vf/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "stateful model-based generation against a Python dict",
 "C02": "stateful model-based generation against a Python list, exhaustive small slices",
 "C03": "round-trip and metamorphic detachment over generated structures",
 "C04": "YAML dump/load round-trip over generated configs and Unicode text",
 "C05": "generated configs, copy/pickle round-trip with a differential walk and mutation histories",
 "C06": "generated config pairs against a reference equality",
 "C07": "generated merge sequences against a reference merge",
 "C08": "generated schemas and inputs against a reference typed merge",
 "C09": "stateful histories on typed configs with a type invariant after every step",
 "C10": "generated (declared type, value, route) cases against a conversion table oracle",
 "C11": "generated read-only trees x every mutator, unchanged-contents oracle",
 "C12": "generated struct trees and histories against a struct-aware dict model",
 "C13": "stateful histories of flag settings and moves against a reference flag tree",
 "C14": "generated interpolation graphs against a reference resolver",
 "C15": "grammar-derived expression generation with denotation oracle, round-trip quoting",
 "C16": "grammar-mutation and random text fuzzing, differential against a fresh parser, concurrent parsing",
 "C17": "generated trees and path spellings against a hand walk",
 "C18": "generated configs x option product against a reference conversion",
 "C19": "generated interpolation graphs, differential resolve vs resolved conversion, idempotence",
 "C20": "stateful histories over the resolver table and cache with call recording",
 "C21": "generated calls to built-in resolvers against reference functions",
 "C22": "generated missing placements, every route of reading",
 "C23": "differential: dotlist/CLI vs successive updates, generated override lists",
 "C24": "generated configs and key lists against a dict filter",
 "C25": "generated failing accesses with expected exception family and path",
 "C26": "generated dataclass/attrs declarations against their field lists, round-trip",
 "C27": "stateful histories with node moves, tree invariant after every step",
 "C28": "generated and mutated YAML documents, differential against PyYAML's safe loader",
 "C29": "generated configs through the debugger extension against an independent listing",
 "C30": "generated class sources in random spellings, differential against the plainly written classes over generated operations",
 "C31": "stateful histories of single nodes against the values they should hold",
 "C32": "generated and edited configs queried at every place, against their plain contents",
}
NOTE = ("Sampled exploration with a fixed seed: no violation among the generated cases counted in the evidence file; inputs outside the "
        "generated space are not covered. Trusts the oracle in vf/props, Hypothesis and CPython.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "vf", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./check {pid}", "thorough_cmd": f"./check {pid} --tier thorough",
                       "technique": "property-based testing: " + TECH[pid], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "no check is built for it yet"})
json.dump({"version": 1, "setup_cmd": "PYTHONPATH=. python3-vt -m vf.build", "checks": checks, "not_applicable": na,
           "notes": "All checks: ./check <id> [--tier thorough] [--seed N] [--replay FILE]. The repository has no hooks; fixes are listed in known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
