"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo and the attribution below."""
import json, os, subprocess
A = {"1075ffe": "C02", "c48344d": "C02", "eab12fb": "C27", "47c8b76": "C02", "fad3c73": "C02", "61d4de4": "C02", "9dd7254": "C27", "fcfa99d": "C07", "656759d": "C06", "4a1e7eb": "C04", "2a9771a": "C11", "ca0a50e": "C11",
     "9cc1651": "C11", "83a0ecc": "C17", "e01cacd": "C02", "030826d": "C28", "c6f9bc1": "C28", "bf19d93": "C06", "2c0eb40": "C06", "adff43a": "C22", "efc533d": "C07", "c135858": "C17", "1acbfbc": "C17", "42244db": "C10",
     "f1a9df7": "C10", "b3bffca": "C08", "2c5a829": "C26", "4c81698": "C09", "ea3010d": "C08", "de8a8d5": "C07", "2076ffa": "C09", "6151502": "C08", "044401d": "C08", "97336c0": "C08", "2e40409": "C27", "90540e2": "C13",
     "2fa7515": "C11", "d2f1c65": "C12", "6e5592f": "C16", "18ac464": "C16", "e224da3": "C16", "1e609cc": "C19", "f2740a1": "C20", "8903523": "C08", "fcf531f": "C21", "763d31a": "C22", "8d53e52": "C08", "1fced2c": "C24",
     "e2b41e0": "C25", "342f8ae": "C25", "d521d37": "C25", "048c88a": "C25", "d5b7a1e": "C02", "b4b5f4b": "C25", "f79e879": "C25", "2d47f5a": "C25", "3895833": "C25", "857c9c6": "C25", "b4846c6": "C25", "f80a0a6": "C25",
     "29f73c8": "C25", "6a87dc1": "C29", "2782662": "C31", "6d2d19b": "C32", "2af2f40": "C09", "26c9756": "C02", "ac39314": "C02", "c0b2cba": "C02", "09aa823": "C01", "cd7be81": "C18", "8fcc9b7": "C13"}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        out.append(f"fixed: property={A[h[:7]]} {h} {s[5:]}")
f = os.path.join(here, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
print(len(out))
