"""Batch runner: seeds -> plans -> runs on 8 forked workers -> verdict and evidence."""
import argparse
import importlib
import json
import os
import re
import select
import signal
import subprocess
import sys
import time

from . import shim
from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_world(prop):
    core.install_seams()
    mod = importlib.import_module(f"sim.worlds.{prop.lower()}")
    w = mod.WORLD()
    if w.prop != prop:
        raise core.HarnessError("world/property mismatch")
    return w


def make_plan(world, base, i, tier):
    rng = core.rng_for(world.prop, base, i)
    plan = world.gen(rng, tier)
    plan["prop"] = world.prop
    plan["seed"] = rng.getrandbits(48)
    return plan


def worker(world, base, idxs, tier, deadline, wfd, rerun):
    """Run the plans of idxs; one JSON line per run to wfd."""
    out = os.fdopen(wfd, "w", buffering=1)
    for i in idxs:
        if shim.real_monotonic() > deadline:
            break
        try:
            plan = make_plan(world, base, i, tier)
        except BaseException as e:  # noqa: BLE001
            import traceback
            out.write(json.dumps({"i": i, "harness": "gen: " + traceback.format_exc()[-2000:]}) + "\n")
            break
        t = shim.real_monotonic()
        r = core.run_plan(world, plan)
        r["i"] = i
        r["wall"] = shim.real_monotonic() - t
        r["plan_hash"] = core.jhash({k: v for k, v in plan.items() if k != "seed"})
        if rerun:
            r2 = core.run_plan(world, plan)
            if (r2["log"], r2["violation"], r2["events"]) != (r["log"], r["violation"], r["events"]):
                r["nondet"] = [r["log"], r2["log"]]
        if r.get("violation"):
            r["plan"] = plan
        if i < 3:
            r["sample"] = plan
        out.write(json.dumps(r, default=str) + "\n")
        if r.get("violation"):
            break
    out.close()
    os._exit(0)


def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=/(.*)/ :: (.*)$", line.strip())
            if m:
                out.append(dict(prop=m[1], kind=m[2], match=m[3], text=m[4]))
    return out


def match_known(known, prop, violation):
    for k in known:
        if k["prop"] == prop and k["kind"] == violation[0] and re.search(k["match"], violation[1]):
            return k
    return None


def replay_in_fresh_process(path):
    p = subprocess.run([os.path.join(VERIF, "replay"), path], capture_output=True, text=True,
                       timeout=400)
    m = re.search(r"^REPRODUCED kind=(\S+)", p.stdout, re.M)
    return m[1] if m else None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VSIM_WORKERS", "8")))
    ap.add_argument("--rerun", action="store_true", help="run every plan twice and compare logs")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--logs", help="write index,log hash lines here (determinism proof)")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    print(f"{a.prop} tier={tier} VERIF_SEED={seed} hashseed={os.environ.get('PYTHONHASHSEED')}", flush=True)
    t_start = shim.real_monotonic()
    world = load_world(a.prop)
    world.setup()
    known = known_findings()
    runs = a.runs or (world.quick_runs if tier == "quick" else world.thorough_runs)
    wall = a.wall or (world.quick_wall if tier == "quick" else world.thorough_wall)
    deadline = shim.real_monotonic() + wall
    W = a.workers
    fds, pids = {}, []
    for w in range(W):
        r, wr = os.pipe()
        idxs = list(range(a.start + w, a.start + runs, W))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            for f in fds:
                os.close(f)
            try:
                worker(world, seed, idxs, tier, deadline, wr, a.rerun)
            finally:
                os._exit(81)
        os.close(wr)
        fds[r] = b""
        pids.append(pid)
    results, bad_workers = [], 0
    hard = deadline + world.run_timeout + 60
    stop = False
    while fds:
        left = hard - shim.real_monotonic()
        if left <= 0:
            stop = True
        if stop:
            break
        for fd in select.select(list(fds), [], [], min(left, 5))[0]:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del fds[fd]
                continue
            fds[fd] += b
            *lines, rest = fds[fd].split(b"\n")
            fds[fd] = rest
            for ln in lines:
                r = json.loads(ln)
                results.append(r)
                if r.get("violation") and not match_known(known, a.prop, r["violation"]) and not a.keep_going:
                    stop = True
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        except PermissionError:
            pass
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    results.sort(key=lambda r: r["i"])
    search_wall = shim.real_monotonic() - t_start
    return report(a, world, tier, seed, results, known, runs, search_wall)


def report(a, world, tier, seed, results, known, runs, search_wall):
    harness = [r for r in results if r.get("harness")]
    viol = [r for r in results if r.get("violation")]
    nondet = [r for r in results if r.get("nondet")]
    if a.logs:
        with open(a.logs, "w") as f:
            for r in results:
                f.write(f"{r['i']} {r.get('log')} {r.get('events')} {r.get('violation')}\n")
    rc = 0
    known_hit = {}
    new = []
    for r in viol:
        k = match_known(known, a.prop, r["violation"])
        if k:
            known_hit[k["text"]] = r
        else:
            new.append(r)
    # deterministic scenarios for recorded findings
    for k in known:
        if k["prop"] != a.prop:
            continue
        plan = world.known_plan(k["kind"], k["match"]) if hasattr(world, "known_plan") else None
        if plan is not None:
            plan = dict(plan, prop=world.prop, seed=plan.get("seed", 1))
            r = core.run_plan(world, plan)
            if r.get("violation") and match_known(known, a.prop, r["violation"]):
                known_hit[k["text"]] = r
    for text in known_hit:
        print(f"KNOWN-FINDING: property={a.prop} {text}")
    replays = []
    unrepro = 0
    seen_kinds = set()
    for r in new:
        kind, detail = r["violation"]
        if kind in seen_kinds:
            continue
        seen_kinds.add(kind)
        if len(replays) >= 3:
            break
        plan, tries = core.shrink(world, r["plan"], kind, budget_s=40 if not replays else 15)
        final = core.run_plan(world, plan)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{a.prop}-{plan['seed']:012x}.json")
        v = final.get("violation") or r["violation"]
        doc = {"property": a.prop, "kind": kind, "detail": v[1], "verif_seed": seed, "index": r["i"],
               "hashseed": os.environ.get("PYTHONHASHSEED"), "log": final.get("log"),
               "shrink_tries": tries, "plan": plan}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        got = replay_in_fresh_process(path)
        if got != kind:  # fall back to the unshrunk plan
            doc["plan"] = r["plan"]
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            got = replay_in_fresh_process(path)
        if got != kind:
            unrepro += 1
            print(f"UNREPRODUCED {kind}: {v[1][:600]} (replay gave {got}) {path}")
            continue
        print(f"violation kind={kind}: {v[1][:1500]}")
        print(f"  minimised plan: {json.dumps(plan)[:1500]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        replays.append(path)
        rc = 1
    for r in harness[:3]:
        print(f"HARNESS-ERROR run {r['i']}: {r['harness'][-1500:]}")
    for r in nondet[:5]:
        print(f"NONDETERMINISM run {r['i']}: {r['nondet']}")
    if rc == 0 and (harness or nondet or unrepro):
        rc = 2
    done = [r for r in results if not r.get("harness")]
    if rc == 0 and not done:
        print("HARNESS-ERROR no run completed")
        rc = 2
    write_evidence(a, world, tier, seed, done, runs, search_wall, len(replays))
    return rc


def write_evidence(a, world, tier, seed, done, runs, wall, nviol):
    faults, probes, states, logs = {}, {}, set(), set()
    for r in done:
        for k, v in r.get("faults", {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get("probes", {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(r.get("states", ()))
        if r.get("events", 0) >= 2 and not r.get("skip"):
            logs.add(r["log"])
    sim_s = sum(r.get("sim_s", 0) for r in done)
    samples = [r["sample"] for r in done if r.get("sample")][:2]
    skipped = sum(1 for r in done if r.get("skip"))
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(logs),
            "rule": world.rule + " A run counts as non-trivial if its event log has at least two "
                    "events; distinct means a different event log (operations, results, faults that fired).",
            "samples": samples,
            "planned_runs": runs,
            "skipped_runs": skipped,
            "runs_per_hour": round(len(done) / max(wall, 1e-9) * 3600),
            "simulated_seconds": round(sim_s, 3),
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": len(states),
            "state_measure": "hash of the abstract state recorded after each step (see the world's docstring)",
            "components_real": list(world.real),
            "components_stubbed": list(world.stubs),
        },
        "wall_s": round(wall, 3),
        "assumptions": list(world.assumptions),
        "violations": nviol,
    }
    print(f"{a.prop}: {len(done)}/{runs} runs, {len(logs)} distinct, {wall:.1f} s, "
          f"{ev['coverage']['runs_per_hour']} runs/h, sim {sim_s:.0f} s, faults {faults}, probes {probes}, "
          f"{len(states)} states, skipped {skipped}, violations {nviol}", flush=True)
    if a.no_evidence:
        return
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


def replay_main(path):
    doc = json.load(open(path))
    world = load_world(doc["property"])
    world.setup()
    r = core.run_plan(world, doc["plan"])
    if r.get("violation"):
        print(f"REPRODUCED kind={r['violation'][0]}")
        print(r["violation"][1])
        print(f"log={r['log']} (recorded {doc.get('log')})")
        if r.get("trace"):
            for e in r["trace"]:
                print("  ", *e)
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("not reproduced", r.get("harness", ""), r.get("skip", ""))
    for e in r.get("trace", ()):
        print("  ", *e)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        code = replay_main(sys.argv[2])
    else:
        try:
            code = main()
        except BaseException:  # noqa: BLE001
            import traceback
            traceback.print_exc()
            code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
