"""C03: crashes and I/O errors at any system call of creating or updating a directory index."""
import errno
import hashlib
import os

from .. import core, dirs, shim
from ..core import Proc, Violation, World
from .c01 import delta

ACTS = {"crash-before": shim.CRASH_BEFORE, "crash-after": shim.CRASH_AFTER, "torn-crash": shim.TORN_CRASH,
        "error": shim.ERR, "short": shim.SHORT}
CLS = {"write": shim.WRITE, "open": shim.OPEN | shim.OPENW, "openw": shim.OPENW, "truncate": shim.TRUNC,
       "sync": shim.SYNC, "close": shim.CLOSE, "rename": shim.RENAME, "unlink": shim.UNLINK, "read": shim.READ,
       "any": shim.WRITE | shim.OPEN | shim.OPENW | shim.TRUNC | shim.CLOSE | shim.RENAME | shim.UNLINK}


class Agent:
    def __init__(self, data):
        self.data = data
        self.sp = None

    def update(self, rules=(), new=False):
        import dascore as dc
        shim.reset()
        shim.clear()
        ids = []
        for cls, act, nth, n, arg in rules:
            ids.append(shim.rule(CLS[cls], ACTS[act], nth=nth, n=n, arg=arg, match="dascore_"))
        self.ids = ids
        try:
            if new or self.sp is None:
                self.sp = dc.spool(self.data)
            self.sp = self.sp.update(progress=None)
        finally:
            self.fired = [shim.fired(i) for i in ids]
            shim.clear()
        return dirs.df_rows(self.sp.get_contents()), len(self.sp)

    def fired_rules(self):
        return getattr(self, "fired", [])

    def fresh(self):
        import dascore as dc
        sp = dc.spool(self.data)
        return dirs.df_rows(sp.get_contents()), len(sp)


class WORLD(World):
    prop = "C03"
    quick_runs = 240
    thorough_runs = 12000
    real = ("directory indexer and index file writing (pandas/PyTables/HDF5)", "directory spool",
            "format detection and scanners", "process death (the process really exits inside the call)")
    stubs = ("system calls on the index fail, come up short, tear or end the process as the plan says",
             "wall clock", "modification times", "listing order")
    rule = ("Rounds of arrivals followed by an update during which a system call on an index file (n-th write, open, "
            "truncate, close, rename, unlink) crashes the process, tears, fails once or repeatedly; then queries "
            "without update and a retry in the same or a new process.")
    assumptions = ("a crash ends the process; the operating system survives, so completed calls are durable",
                   "errors hit files of the index, the data files themselves stay readable")

    def setup(self):
        self.corpus = [f for f in dirs.build_corpus() if f["spec"]["kind"] in ("DASDAE", "PICKLE")]

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    def gen(self, rng, tier):
        steps = []
        n = 0
        for _ in range(rng.randint(1, 3 if tier == "quick" else 8)):
            puts = []
            for _ in range(rng.randint(1, 3)):
                puts.append([rng.randrange(len(self.corpus)), f"{rng.choice(['', 's/'])}f{n}"])
                n += 1
            steps.append(["put", puts])
            if rng.random() < 0.3:
                steps.append(["update"])
                continue
            kind = rng.random()
            if kind < 0.5:
                act = rng.choice(["crash-before", "crash-after", "torn-crash"])
                cls = "write" if act == "torn-crash" else rng.choice(["write", "write", "any", "openw", "rename",
                                                                      "close", "truncate", "unlink"])
                rules = [[cls, act, self._nth(rng, cls), 1, rng.randrange(1, 4000)]]
            else:
                cls = rng.choice(["write", "write", "open", "openw", "truncate", "close", "rename", "any"])
                act = "error"
                if cls == "write" and rng.random() < 0.3:
                    act = "short"
                if cls == "close":
                    act = "error"
                cnt = rng.choice([1, 1, 2, 5, 1000])
                arg = rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES]) if act == "error" else rng.randrange(1, 200)
                rules = [[cls, act, self._nth(rng, cls), cnt, arg]]
            steps.append(["fault", rules, rng.random() < 0.5, rng.random() < 0.4])
            for _ in range(rng.choice([0, 0, 1])):
                steps.append(["fresh"])
            if rng.random() < 0.5:
                steps.append(["update"])
        return dict(steps=steps, listing=rng.choice([0, 1, 5]))

    def _nth(self, rng, cls):
        top = {"write": 60, "any": 90, "open": 6, "openw": 3, "rename": 1, "close": 6, "truncate": 3, "unlink": 2}[cls]
        return rng.randint(1, top if rng.random() < 0.4 else min(top, 6 if cls == "any" else 3))

    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        shim.root(data)
        disk = {}
        state = []            # rows of the last complete index
        have_index = False
        sums = {}
        p = Proc(Agent(data))
        try:
            for st in plan["steps"]:
                shim.advance(1.0)
                want = sorted(r for rel, v in disk.items() for r in dirs.expected_rows(rel, v))
                if st[0] == "put":
                    for f, rel in st[1]:
                        fam = self.corpus[f]
                        rel = rel + fam["spec"]["ext"]
                        dirs.place(data, rel, fam["versions"][0], shim.now())
                        disk[rel] = fam["versions"][0]
                        sums[rel] = hashlib.md5(fam["versions"][0]["files"][""]).hexdigest()
                    ctx.log("put", len(st[1]))
                elif st[0] == "update":
                    rows, n = p.call("update")
                    self.same("update", want, rows, n)
                    state = rows
                    ctx.log("update", len(rows))
                elif st[0] == "fresh":
                    self.view(ctx, data, state, want)
                    state = None if not state else state
                elif st[0] == "fault":
                    rules, same_proc, new_spool = st[1], st[2], st[3]
                    s, val = p.try_call("update", rules, new_spool)
                    ctx.log("fault", rules, s, val if s == "error" else None)
                    if s == "crashed":
                        for r in rules:
                            ctx.fault(f"{r[1]}@{r[0]}")
                    else:
                        fired = p.call("fired_rules")
                        for r, k in zip(rules, fired):
                            ctx.fault(f"{r[1]}@{r[0]}", k)
                        if s == "error" and not any(fired):
                            raise Violation("unexpected-exception", val)
                    ctx.probe("faulty-update-" + s)
                    ctx.state(str(rules), s, len(want), bool(state))
                    if s == "ok":
                        rows, n = val
                        self.same("update that returned", want, rows, n)
                        state = rows
                    self.view(ctx, data, state, want)
                    if s == "crashed":
                        p = Proc(Agent(data))
                    elif not same_proc:
                        p.kill()
                        p = Proc(Agent(data))
                    rows, n = p.call("update")
                    self.same("update after the fault", want, rows, n)
                    state = rows
                    ctx.log("recovered", len(rows))
                self.data_ok(data, sums)
            p.kill()
            p = Proc(Agent(data))
            rows, n = p.call("update")
            want = sorted(r for rel, v in disk.items() for r in dirs.expected_rows(rel, v))
            self.same("final update", want, rows, n)
        finally:
            p.kill()

    def same(self, what, want, rows, n):
        if rows != want or n != len(want):
            raise Violation("contents", f"{what}: {delta(want, rows)}")

    def view(self, ctx, data, state, want):
        """Another process looks at the directory without updating it."""
        q = Proc(Agent(data))
        try:
            rows, n = q.call("fresh")
        finally:
            q.kill()
        ctx.log("view", len(rows))
        if rows != want and rows != (state or []):
            raise Violation("partial-view", f"neither the old nor the new contents: vs new {delta(want, rows)}; "
                            f"vs old {delta(state or [], rows)}")

    def data_ok(self, data, sums):
        for rel, h in sums.items():
            with open(os.path.join(data, rel), "rb") as f:
                if hashlib.md5(f.read()).hexdigest() != h:
                    raise Violation("data-changed", rel)
