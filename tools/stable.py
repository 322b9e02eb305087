"""stable.py OUT.json: which stable tests did not pass."""
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open("/opt/vp/BASELINE.json"))
missing = sorted(set(b["stable"]) - set(o["passed"]))
print(len(b["stable"]), "stable,", len(missing), "not passing")
for m in missing[:20]:
    print("  ", m)
sys.exit(bool(missing))
