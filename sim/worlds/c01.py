"""C01: directory index vs. any history of arrivals, updates, restarts (also in mid-scan)."""
import os

from .. import core, dirs, shim
from ..core import Proc, Skip, Violation, World

DIRS = ["", "", "", "sub", "sub/deep", "other", "zz"]


class Agent:
    """Runs inside a simulated process: a few spools on one directory."""

    def __init__(self, data):
        self.data = data
        self.spools = {}

    def _spool(self, s):
        import dascore as dc
        if s not in self.spools:
            self.spools[s] = dc.spool(self.data)
        return self.spools[s]

    def _arm(self, mids):
        shim.reset()
        shim.clear()
        if not mids:
            return
        table = {}
        for k, (cls, nth) in enumerate(mids):
            table[shim.rule(cls, shim.CALLBACK, nth=nth)] = k
        done = set()

        def cb(rule, cls, path):
            k = table[rule]
            if k not in done:
                done.add(k)
                core.up(k)
            return 0
        shim.callback(cb)

    def update(self, s, mids=()):
        sp = self._spool(s)
        self._arm(mids)
        try:
            sp = sp.update(progress=None)
        finally:
            shim.clear()
        self.spools[s] = sp
        df = sp.get_contents()
        n = len(sp)
        return dirs.df_rows(df), n

    def indexer_update(self, rels):
        """Update restricted to some paths through the indexer."""
        from dascore.io.indexer import DirectoryIndexer
        ind = DirectoryIndexer(self.data)
        ind.update(paths=[os.path.join(self.data, r) for r in rels], progress=None)
        return True

    def fresh(self):
        """Contents seen by a spool created now, without updating."""
        import dascore as dc
        sp = dc.spool(self.data)
        return dirs.df_rows(sp.get_contents()), len(sp)

    def again(self, s):
        """Contents of a spool object obtained earlier."""
        sp = self._spool(s)
        return dirs.df_rows(sp.get_contents()), len(sp)


class WORLD(World):
    prop = "C01"
    quick_runs = 280
    thorough_runs = 20000
    real = ("directory spool", "directory indexer", "HDF5 index table (pandas/PyTables/HDF5)",
            "file system walk and format detection", "DASDAE, PICKLE, SEGY, XMLBINARY scanners",
            "process memory separation (forked processes)")
    stubs = ("wall clock (simulated)", "modification times (set from the simulated clock)",
             "directory listing order (permuted by seed)", "uuid/temporary names (seeded)",
             "progress bar (off)")
    rule = ("Random histories of arrive/grow/replace/touch/update/partial update/fresh query/restart/wait over "
            "1-3 processes with 1-2 spools each; arrivals and whole updates by other processes are also placed "
            "before the n-th file open or rename inside a running update.")
    assumptions = ("a file carries a modification time not older than the moment it appears",
                   "files appear or change atomically (rename)", "the clock never goes back",
                   "processes' updates overlap only at opens and renames")

    def setup(self):
        self.corpus = dirs.build_corpus()

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        fams = list(range(len(self.corpus)))
        nslots = rng.randint(3, 9)
        slots = []
        for i in range(nslots):
            f = rng.choice(fams)
            spec = self.corpus[f]["spec"]
            d = rng.choice(DIRS)
            slots.append([f, os.path.join(d, f"n{rng.randrange(100):02d}_{i}{spec['ext']}")])
        nproc = rng.choice([1, 1, 2, 3])
        steps = []
        nsteps = rng.randint(4, 16 if tier == "quick" else 40)
        for _ in range(nsteps):
            steps.append(self._step(rng, nslots, nproc, True))
        return dict(slots=slots, nproc=nproc, steps=steps, t0=1_700_000_000 + rng.randrange(0, 3) / 2,
                    listing=rng.choice([0, 1, rng.randrange(2, 1000)]), final=rng.choice(["old", "new", "newproc"]))

    def _file_step(self, rng, nslots):
        r = rng.random()
        s = rng.randrange(nslots)
        if r < 0.65:
            return ["put", s, rng.choice([0, 0, 1, 2])]
        if r < 0.85:
            return ["grow", s]
        return ["touch", s]

    def _step(self, rng, nslots, nproc, top):
        r = rng.random()
        if r < 0.40:
            return self._file_step(rng, nslots)
        if r < 0.72:
            mids = []
            if rng.random() < 0.45:
                for _ in range(rng.randint(1, 2)):
                    cls = rng.choice([shim.OPEN, shim.OPEN, shim.OPEN, shim.RENAME])
                    nth = rng.randint(1, 12) if cls == shim.OPEN else 1
                    sub = [self._file_step(rng, nslots) for _ in range(rng.randint(1, 2))]
                    if nproc > 1 and rng.random() < 0.4:
                        sub.append(["update", rng.randrange(nproc), rng.randrange(2), []])
                    if rng.random() < 0.5:
                        sub.insert(rng.randrange(len(sub) + 1), ["wait", rng.choice([0.0005, 0.01, 1, 100])])
                    mids.append([cls, nth, sub])
            return ["update", rng.randrange(nproc), rng.randrange(2), mids]
        if r < 0.77:
            return ["partial", rng.randrange(nproc), sorted(rng.sample(range(nslots), rng.randint(1, 2)))]
        if r < 0.84:
            return ["fresh", rng.randrange(nproc)]
        if r < 0.89:
            return ["restart", rng.randrange(nproc)]
        if r < 0.93:
            return ["again", rng.randrange(nproc), rng.randrange(2)]
        return ["wait", rng.choice([0, 0.0001, 0.001, 0.5, 2, 60, 86400])]

    # -------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        shim.root(data)
        self.data, self.ctx, self.plan = data, ctx, plan
        self.slots = plan["slots"]
        self.cur = {}        # slot -> version index now on disk
        self.hist = {}       # slot -> versions it has had since last known to be indexed
        self.indexed = None  # rows of the index as last observed, None = unknown
        self.seen = {}       # (proc, spool) -> rows that object returned
        self.busy = []       # processes inside a call
        self.procs = {}
        self.overlap = False
        try:
            for st in plan["steps"]:
                self.step(st)
                ctx.state(sorted(self.cur.items()), self.indexed is None, len(self.indexed or ()),
                          sorted(self.seen))
            self.finish(plan["final"])
        finally:
            for p in self.procs.values():
                p.kill()

    def proc(self, i):
        if i not in self.procs:
            self.procs[i] = Proc(Agent(self.data))
        return self.procs[i]

    def exp(self, slot, ver):
        f, rel = self.slots[slot]
        return dirs.expected_rows(rel, self.corpus[f]["versions"][ver])

    def put(self, slot, ver):
        f, rel = self.slots[slot]
        vs = self.corpus[f]["versions"]
        ver = min(ver, len(vs) - 1)
        if self.corpus[f]["spec"]["kind"] == "XMLBINARY" and slot in self.cur:
            ver = max(ver, self.cur[slot])   # such directories only grow
        dirs.place(self.data, rel, vs[ver], shim.now())
        self.hist.setdefault(slot, set()).add(ver)
        self.cur[slot] = ver
        self.ctx.log("put", rel, ver)

    def step(self, st, nested=False):
        op = st[0]
        ctx = self.ctx
        if op == "put":
            self.put(st[1] % len(self.slots), st[2])
        elif op == "grow":
            s = st[1] % len(self.slots)
            if s in self.cur:
                self.put(s, self.cur[s] + 1)
        elif op == "touch":
            s = st[1] % len(self.slots)
            if s in self.cur and self.corpus[self.slots[s][0]]["spec"]["kind"] != "XMLBINARY":
                ns = int(round(shim.now() * 1e9))
                os.utime(os.path.join(self.data, self.slots[s][1]), ns=(ns, ns))
                ctx.log("touch", s)
        elif op == "wait":
            shim.advance(st[1])
            ctx.fault("clock-advance")
        elif op == "restart":
            if st[1] in self.procs and st[1] not in self.busy:
                self.procs.pop(st[1]).kill()
                self.seen = {k: v for k, v in self.seen.items() if k[0] != st[1]}
                ctx.fault("process-restart")
                ctx.log("restart", st[1])
        elif op == "update":
            if st[1] not in self.busy:
                self.update(st[1], st[2], st[3], nested)
        elif op == "partial":
            rels = [s for s in st[2] if s in self.cur
                    and self.corpus[self.slots[s][0]]["spec"]["kind"] not in ("XMLBINARY", "JUNK")]
            if rels and st[1] not in self.busy:
                self.proc(st[1]).call("indexer_update", [self.slots[s][1] for s in rels])
                ctx.log("partial", rels)
                self.indexed = None
        elif op == "fresh":
            self.fresh(st[1])
        elif op == "again":
            k = (st[1], st[2])
            if k in self.seen:
                rows, n = self.proc(st[1]).call("again", st[2])
                if rows != self.seen[k]:
                    raise Violation("spool-changed", f"spool {k} listed {len(self.seen[k])} rows, now {len(rows)}: "
                                    f"{delta(self.seen[k], rows)}")

    def fresh(self, p):
        known = self.indexed
        rows, n = self.proc(p).call("fresh")
        self.ctx.log("fresh", len(rows))
        if n != len(rows):
            raise Violation("length", f"len {n} but {len(rows)} rows")
        if known is not None and rows != known:
            raise Violation("index-view", f"fresh spool differs from index contents: {delta(known, rows)}")
        if known is None:
            # might have created the index; entries must be real, without duplicates
            self.check_possible(rows)

    def check_possible(self, rows):
        poss = {}
        for s, vs in self.hist.items():
            for v in vs:
                for r in self.exp(s, v):
                    poss[r] = True
        bad = [r for r in rows if r not in poss]
        if bad:
            raise Violation("wrong-row", f"row never reported by a scan of that file: {bad[:2]}")
        dup = [r for r in set(rows) if rows.count(r) > 1]
        if dup:
            raise Violation("duplicate", f"{len(dup)} duplicated, e.g. {dup[0]}")

    def update(self, p, s, mids, nested):
        ctx = self.ctx
        before = dict(self.cur)
        changed = set()
        fired = []
        outer_overlap = self.overlap
        self.overlap = False

        def on_up(k):
            snap = dict(self.cur)
            fired.append(k)
            for sub in mids[k][2]:
                if sub[0] == "update" and sub[1] != p:
                    self.overlap = True
                    ctx.fault("update-inside-update")
                else:
                    ctx.fault("change-inside-update")
                self.step(sub, nested=True)
                if sub[0] in ("put", "grow", "touch"):
                    changed.add(sub[1] % len(self.slots))
        self.busy.append(p)
        try:
            rows, n = self.proc(p).call("update", s, [m[:2] for m in mids], on_up=on_up)
        finally:
            self.busy.pop()
        ctx.log("update", p, s, fired, len(rows))
        if n != len(rows):
            raise Violation("length", f"len {n} but {len(rows)} rows")
        self.check_possible(rows)
        # every file present (and unchanged) since the update began is listed exactly
        by_slot = {}
        have = {}
        for r in rows:
            have[r] = have.get(r, 0) + 1
        for sl, ver in before.items():
            if sl in changed:
                continue
            want = self.exp(sl, ver)
            miss = [r for r in want if r not in have]
            if miss and not self.overlap:
                raise Violation("missing", f"{len(miss)} of {len(want)} rows of {self.slots[sl][1]} missing after "
                                f"update, e.g. {miss[0]}")
            if not miss and not self.overlap:
                stale = [r for v in self.hist[sl] for r in self.exp(sl, v) if r in have and r not in want]
                if stale:
                    raise Violation("stale", f"rows of an earlier version of {self.slots[sl][1]}: {stale[0]}")
        if self.overlap or nested:
            self.indexed = None
        else:
            self.indexed = rows or None   # without entries there is no index yet
            for sl in before:
                if sl not in changed:
                    self.hist[sl] = {self.cur[sl]}
        self.overlap = outer_overlap or self.overlap
        if not nested:
            self.overlap = False
        self.seen[(p, s)] = rows

    def finish(self, how):
        """Nothing changes any more: one update must give exactly what is there."""
        ctx = self.ctx
        if how == "newproc" or not self.procs:
            p = 99
        else:
            p = sorted(self.procs)[0]
        s = 7 if how == "new" else 0
        want = sorted(r for sl, v in self.cur.items() for r in self.exp(sl, v))
        rows, n = self.proc(p).call("update", s)
        ctx.log("final", len(rows))
        if rows != want:
            raise Violation("final-contents", f"after the last update: {delta(want, rows)}")
        if n != len(want):
            raise Violation("length", f"len {n}, want {len(want)}")
        ctx.probe("final-rows", len(rows))
        # nothing new: nothing changes, for anybody
        for q in sorted(self.procs):
            shim.advance(1)
            rows, n = self.proc(q).call("update", 0)
            if rows != want:
                raise Violation("idempotence", f"update with nothing new: {delta(want, rows)}")
        rows, n = self.proc(100).call("fresh")
        if rows != want:
            raise Violation("fresh-contents", f"new process: {delta(want, rows)}")

    def simplify(self, plan):
        for i, st in enumerate(plan["steps"]):
            if st[0] == "update" and st[3]:
                for j in range(len(st[3])):
                    c = [x for x in plan["steps"]]
                    c[i] = st[:3] + [st[3][:j] + st[3][j + 1:]]
                    yield dict(plan, steps=c)
                    for k in range(len(st[3][j][2])):
                        m = [list(x) for x in st[3]]
                        m[j][2] = m[j][2][:k] + m[j][2][k + 1:]
                        c = [x for x in plan["steps"]]
                        c[i] = st[:3] + [m]
                        yield dict(plan, steps=c)
        if plan["listing"]:
            yield dict(plan, listing=0)
        if plan["nproc"] > 1:
            yield dict(plan, nproc=1, steps=[[x[0], 0] + x[2:] if x[0] in ("update", "fresh", "again", "partial")
                                             else x for x in plan["steps"]])


def delta(want, got):
    w, g = list(want), list(got)
    miss = []
    for r in w:
        if r in g:
            g.remove(r)
        else:
            miss.append(r)
    return f"{len(miss)} missing {miss[:2]}, {len(g)} extra {g[:2]}"
