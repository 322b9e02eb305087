"""C12: queries in one process while another updates the index, with failing reads of the index.

State measure: (reader operation, place of the other process's action, fault, versions seen).
"""
import os

from .. import core, dirs, shim
from ..core import Proc, Violation, World

INDEX = ".dascore_index"
ERRNO = {"EIO": 5, "EAGAIN": 11, "EACCES": 13, "ENOENT": 2, "EBUSY": 16, "EINTR": 4, "ESTALE": 116, "EMFILE": 24}
KEEP = (0, 1, 2, 3, 7, 8, 9, 10, 11, 12)      # columns a selection does not trim


class Agent:
    """A process with spools on the directory; reader and updater are both of this kind."""

    def __init__(self, data):
        self.data, self.held = data, {}

    def arm(self, mids, fault):
        shim.reset()
        shim.clear()
        table, done = {}, set()
        for k, (cls, nth, what) in enumerate(mids):
            table[shim.rule(cls, shim.CALLBACK, nth=nth, match=INDEX if what else "")] = k
        self.until, self.fires = None, 0
        frule = None
        if fault:
            cls, nth, err, dur, n = fault
            if dur is None:
                frule = shim.rule(cls, shim.ERR, nth=nth, n=n, arg=ERRNO[err], match=INDEX)
                self.frule = frule
            else:
                frule = shim.rule(cls, shim.CALLBACK, nth=nth, n=1 << 30, match=INDEX)

        def cb(rule, cls, path):
            if rule == frule:
                if self.until is None:
                    self.until = shim.now() + fault[3]
                if shim.now() < self.until:
                    self.fires += 1
                    return ERRNO[fault[2]]
                return 0
            k = table[rule]
            if k not in done:
                done.add(k)
                core.up(k)
            return 0
        shim.callback(cb)

    def disarm(self, fault):
        if fault and fault[3] is None:
            self.fires = shim.fired(self.frule)
        shim.clear()

    def update(self, mids):
        import dascore as dc
        sp = self.held.get("w") or dc.spool(self.data)
        self.arm(mids, None)
        try:
            self.held["w"] = sp.update(progress=None)
        finally:
            shim.clear()
        return True

    def hold(self, k):
        import dascore as dc
        self.held[k] = dc.spool(self.data)

    def query(self, k, op, arg, mids, fault):
        """(outcome, rows or text, fault fired, simulated seconds)"""
        import dascore as dc
        t0 = shim.now()
        self.arm(mids, fault)
        try:
            try:
                sp = dc.spool(self.data) if k is None else self.held[k]
                out = ("ok", self.ask(sp, op, arg))
            except Exception as e:  # noqa: BLE001
                if not core.from_library(e):
                    raise
                out = ("err", core.describe(e))
        finally:
            self.disarm(fault)
        return out + (self.fires, shim.now() - t0)

    def ask(self, sp, op, arg):
        import numpy as np
        from .. import gen
        if op == "time":
            t = gen.T_BASE + np.timedelta64(arg[0], "ms")
            sp = sp.select(time=(t, t + np.timedelta64(arg[1], "ms")))
        elif op == "tag":
            sp = sp.select(tag=arg)
        elif op == "sort":
            sp = sp.sort("tag")
        elif op == "len":
            return len(sp)
        elif op == "indexer":
            from dascore.io.indexer import DirectoryIndexer
            return dirs.df_rows(DirectoryIndexer(self.data).get_contents())
        elif op == "chunked":
            len(sp)
        return dirs.df_rows(sp.get_contents())


def when(cell):
    import numpy as np
    return np.datetime64(cell, "ns")


def expected(rows, op, arg):
    import numpy as np
    from .. import gen
    if op == "len":
        return len(rows)
    if op == "tag":
        return sorted(r for r in rows if r[1] == arg)
    if op == "time":
        t1 = gen.T_BASE + np.timedelta64(arg[0], "ms")
        t2 = t1 + np.timedelta64(arg[1], "ms")
        rows = [r for r in rows if when(r[4]) <= t2 and when(r[5]) >= t1]
        return sorted(tuple(r[i] for i in KEEP) for r in rows)
    return sorted(rows)


class WORLD(World):
    prop = "C12"
    quick_runs = 300
    thorough_runs = 20000
    real = ("directory spool and indexer, HDF5 index table (pandas/PyTables/HDF5), file system, separate processes",)
    stubs = ("order of the processes' system calls (one runs inside the other at chosen calls)", "clock and sleeping (simulated)",
             "errors of opening and reading the index")
    rule = ("Histories of arrivals, updates by one process and queries by another; a query runs at the n-th call an update makes "
            "(open, read, write, rename, close), updates run at the n-th call a query makes on the index, and opening or "
            "reading the index fails for a number of calls or a span of simulated time.")
    assumptions = ("one process updates at a time", "data files change atomically",
                   "the retry time is about one second: faults up to 0.95 s must be survived, longer ones may be reported")

    def setup(self):
        self.corpus = [c for c in dirs.build_corpus() if c["spec"]["kind"] in ("DASDAE", "PICKLE", "SEGY", "VENDOR")
                       and not any(p.get("special") for p in c["spec"].get("patches", []))]
        self.tags = sorted({r[1] for c in self.corpus for v in c["versions"] for r in v["rows"]})

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        n = rng.randint(2, 8)
        slots = [[rng.randrange(len(self.corpus)), os.path.join(rng.choice(["", "", "sub"]), f"n{i}")] for i in range(n)]
        for s in slots:
            s[1] += self.corpus[s[0]]["spec"]["ext"]
        steps = [["put", k, 0] for k in range(rng.randint(0, n - 1))]
        if rng.random() < 0.85:
            steps.append(["update", []])
        for _ in range(rng.randint(2, 9 if tier == "quick" else 20)):
            r = rng.random()
            if r < 0.25:
                steps.append(["put", rng.randrange(n), rng.choice([0, 1, 2])])
            elif r < 0.4:
                steps.append(["update", [self.mid(rng, n, False) for _ in range(rng.randint(1, 2))]])
            elif r < 0.47:
                steps.append(["hold", rng.randrange(2)])
            elif r < 0.5:
                steps.append(["wait", rng.choice([0.001, 0.5, 100])])
            else:
                steps.append(self.query(rng, n, True))
        return dict(slots=slots, steps=steps, listing=rng.randrange(4))

    def query(self, rng, n, top):
        op = rng.choice(["all", "all", "time", "tag", "len", "sort", "indexer"])
        arg = [rng.randrange(0, 20000), rng.choice([0, 500, 5000, 100000])] if op == "time" else rng.choice(self.tags) if op == "tag" else 0
        mids = [self.mid(rng, n, True) for _ in range(rng.choice([0, 1, 1, 2]))] if top else []
        fault = None
        if rng.random() < 0.5:
            cls = rng.choice([shim.OPEN, shim.READ, shim.READ])
            nth = rng.randint(1, 3) if cls == shim.OPEN or rng.random() < 0.6 else rng.randint(1, 40)
            err = rng.choice(sorted(ERRNO)) if cls == shim.OPEN else rng.choice(["EIO", "EAGAIN", "ESTALE"])
            if rng.random() < 0.3:
                fault = [cls, nth, err, None, rng.choice([1, 1, 2, 3, 5])]
            else:
                fault = [cls, nth, err, rng.choice([0.05, 0.15, 0.35, 0.65, 0.95, 1.1, 3, 1e6]), 0]
        return ["query", rng.choice([None, None, 0, 1]), op, arg, mids, fault]

    def mid(self, rng, n, inside_query):
        if inside_query:
            cls = rng.choice([shim.OPEN, shim.READ, shim.READ, shim.CLOSE])
            nth = rng.randint(1, 4) if cls != shim.READ else rng.randint(1, 40)
            sub = []
            for _ in range(rng.randint(1, 2)):
                sub += [["put", rng.randrange(n), rng.choice([0, 1, 2])], ["update", []]]
            return [cls, nth, 1, sub]
        cls = rng.choice([shim.OPEN, shim.READ, shim.WRITE, shim.RENAME, shim.CLOSE, shim.UNLINK])
        nth = 1 if cls in (shim.RENAME, shim.UNLINK) else rng.randint(1, 15)
        sub = [self.query(rng, n, False)]
        return [cls, nth, rng.random() < 0.6, sub]

    # -------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        self.data = os.path.join(ctx.root, "data")
        os.makedirs(self.data)
        shim.root(self.data)
        self.ctx, self.slots = ctx, plan["slots"]
        self.cur = {}
        self.versions = []        # what the index holds, one entry per completed or running update
        self.files = [[]]         # what the directory held, since the index was last absent
        self.born = {}
        self.has_index = False
        self.w = Proc(Agent(self.data))
        self.r = Proc(Agent(self.data))
        try:
            for st in plan["steps"]:
                self.step(st)
            self.step(["query", None, "all", 0, [], None])
        finally:
            self.w.kill()
            self.r.kill()

    def rows(self):
        out = []
        for s, v in self.cur.items():
            f, rel = self.slots[s]
            out += dirs.expected_rows(rel, self.corpus[f]["versions"][v])
        return sorted(out)

    def step(self, st):
        ctx = self.ctx
        op = st[0]
        if op == "put":
            s = st[1] % len(self.slots)
            f, rel = self.slots[s]
            vs = self.corpus[f]["versions"]
            self.cur[s] = min(st[2], len(vs) - 1)
            shim.advance(0.01)
            dirs.place(self.data, rel, vs[self.cur[s]], shim.now())
            self.files.append(self.rows())
            ctx.log("put", rel, self.cur[s])
        elif op == "wait":
            shim.advance(st[1])
        elif op == "hold":
            self.r.call("hold", st[1])
            self.born[st[1]] = (len(self.versions) - 1, len(self.files) - 1)
        elif op == "update":
            self.update(st[1])
        elif op == "query":
            self.ask(st)

    def update(self, mids):
        shim.advance(0.01)
        self.versions.append(self.rows())      # visible at some moment from now on
        if self.cur:
            self.has_index = True

        def on_up(k):
            self.ctx.fault("query-inside-update")
            for sub in mids[k][3]:
                self.ask(sub, running=True)
        self.w.call("update", [m[:3] for m in mids], on_up=on_up)
        self.ctx.log("updated", len(self.versions[-1]))

    def ask(self, st, running=False):
        _, k, op, arg, mids, fault = st
        ctx = self.ctx
        if k is not None and k not in self.born:
            k = None
        # first version the query may show: the last completed one
        lo = len(self.versions) - 1 - (1 if running else 0)
        flo = len(self.files) - 1
        absent = lo < 0 or not any(self.versions)
        if k is not None:
            lo, flo = min(lo, self.born[k][0]), min(flo, self.born[k][1])
            absent = absent or lo < 0 or not any(self.versions[:max(lo, 0) + 1])
        if absent:
            mids = []                      # the query would be a second updater
            if running:
                return

        def on_up(j):
            ctx.fault("update-inside-query")
            for sub in mids[j][3]:
                self.step(sub)
        st_, val, fires, secs = self.r.call("query", k, op, arg, [m[:3] for m in mids], fault, on_up=on_up)
        ctx.log("query", k, op, st_, fires, round(secs, 3), len(val) if isinstance(val, list) else val)
        ctx.fault("index " + ("open" if fault and fault[0] == shim.OPEN else "read") + " error", fires)
        allowed = [expected(v, op, arg) for v in self.versions[max(lo, 0):]]
        if absent:                         # the query itself creates the index
            allowed += [expected(v, op, arg) for v in self.files[flo:]]
            allowed.append(expected([], op, arg))
        ctx.state(op, k is None, [m[:3] for m in mids], fault, st_, len(allowed), running)
        if secs > 60:
            raise Violation("no-progress", f"{op} took {secs} s of simulated time")
        if st_ == "err":
            lasting = fires and (fault[3] is None and fault[4] > 4 or fault[3] is not None and fault[3] > 0.96)
            if not fires or not (lasting or absent):
                raise Violation("raised", f"{op} {'with' if fires else 'without'} fault {fault}: {val}")
            if absent:                     # a failed query may have created the index
                self.versions.append(self.rows())
            return
        got = val
        if op == "time":
            got = sorted(tuple(r[i] for i in KEEP) for r in val)
        if got not in allowed:
            raise Violation("wrong-contents", f"{op} {arg} fault {fault} fired {fires}: got {str(got)[:300]} ({len(got) if op != 'len' else ''}) "
                            f"allowed {[len(a) if op != 'len' else a for a in allowed]} {str(allowed[-1])[:300]}")
        if absent and self.cur:
            # the index now exists; it holds one of the sets of files since
            self.versions.append(self.rows())
            self.files = [self.rows()]

    def simplify(self, plan):
        for k, st in enumerate(plan["steps"]):
            def sub(new):
                return dict(plan, steps=plan["steps"][:k] + [new] + plan["steps"][k + 1:])
            if st[0] == "query":
                if st[5]:
                    yield sub(st[:5] + [None])
                for j in range(len(st[4])):
                    yield sub(st[:4] + [st[4][:j] + st[4][j + 1:], st[5]])
                if st[2] != "all":
                    yield sub(st[:2] + ["all", 0] + st[4:])
                if st[1] is not None:
                    yield sub(st[:1] + [None] + st[2:])
            elif st[0] == "update" and st[1]:
                for j in range(len(st[1])):
                    yield sub(["update", st[1][:j] + st[1][j + 1:]])
        if plan["listing"]:
            yield dict(plan, listing=0)
