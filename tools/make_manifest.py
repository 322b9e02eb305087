"""Regenerates /verif/MANIFEST.json from the worlds present in sim/worlds and the N properties."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
REASONS = {
    "N01": "Pure interval arithmetic on coordinate values: no schedule, clock, I/O or other party influences the result, so a simulator has nothing to control (C05 checks chunk/merge on file spools only against the in-memory result).",
    "N02": "A pure function of coordinate and query values; nothing nondeterministic for a simulator to decide.",
    "N03": "A pure function of values and units; only its dependence on process history (C15) and threads (C10) is simulated.",
    "N04": "A pure function of its input; no concurrency, clock reading or I/O takes part.",
    "N05": "Pure numerical computation; no schedule, fault or history can change it.",
    "N06": "Pure numerical computation; no schedule, fault or history can change it.",
    "N07": "Pure numerical computation on in-memory values.",
    "N08": "Pure in-memory conversion between libraries.",
    "N09": "Needs vendor specifications and recorded vendor files as oracle and depends only on the bytes; the fault, history and crash behaviour of the readers is covered by C04, C05, C08 and C09.",
}
TECH = "deterministic simulation with fault injection: seeded search over %s, checked against %s"
DEC = json.loads((V / "tools" / "techniques.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "sim" / "worlds" / f"{i.lower()}.py").exists() and i in DEC:
        d = DEC[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick",
                       "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": TECH % (d["search"], d["oracle"]),
                       "level": "exploration", "level_note": d["note"]})
    else:
        na.append({"property": i, "reason": REASONS.get(i, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks in /repo are needed: system calls are intercepted by an LD_PRELOAD library, "
               "Python seams (clock, listing order, entropy, executors, line scheduler) are installed by the checks",
               "source_commits": []},
     "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
