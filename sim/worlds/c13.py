"""C13: processes recording index locations, interleaved at system calls, crashing, with a damaged record.

State measure: (operations run together, order of the processes' calls on the record, faults).
"""
import json
import os

from .. import core, dirs, gen, shim
from ..core import Proc, Violation, World

MAP = "cache_paths"
OWN = "own"                       # the index lies in the directory itself
CALLS = shim.OPEN | shim.OPENW | shim.READ | shim.WRITE | shim.RENAME | shim.UNLINK | shim.CLOSE | shim.TRUNC
ERRNO = {"EIO": 5, "ENOSPC": 28, "EACCES": 13, "EINTR": 4, "EROFS": 30, "EMFILE": 24, "ENOENT": 2}
DAMAGE = ("garbage", "empty", "list", "number", "half", "latin", "values", "null", "zeros", "gone")


def idx(k, j):
    """Index j of directory k; the last one is in a folder which does not exist yet."""
    return f"idx/new{k}/i{k}_{j}.h5" if j == 2 else f"idx/i{k}_{j}.h5"


class Agent:
    """A process of the user."""

    def __init__(self, root):
        self.root, self.held = root, {}
        shim.root(root)

    def run(self, op, fault, readonly, step):
        """(outcome, value, fault fired)"""
        shim.reset()
        shim.clear()
        frule = None
        if fault:
            cls, nth, action, arg = fault
            frule = shim.rule(cls, action, nth=nth, arg=ERRNO.get(arg, arg), match=MAP)
        for k in readonly:
            shim.rule(shim.OPENW | shim.UNLINK | shim.RENAME, shim.ERR, n=1 << 30, arg=ERRNO["EACCES"], match=f"/d{k}/")
        if step:
            shim.rule(CALLS, shim.CALLBACK, n=1 << 30, match=MAP)
            shim.rule(CALLS, shim.CALLBACK, n=1 << 30, match="write_test")
            shim.callback(lambda r, c, p: core.up(("call", c)))
            core.on_lock_wait(lambda: core.up(("blocked", 0)))
        fires = 0
        try:
            try:
                out = ("ok", getattr(self, "op_" + op[0])(*op[1:]))
            except Exception as e:  # noqa: BLE001
                if not core.from_library(e):
                    raise
                out = ("err", core.describe(e))
        finally:
            if frule is not None:
                fires = shim.fired(frule)
            shim.clear()
            core.on_lock_wait(None)
            os.chdir(self.root)
        return out + (fires,)

    def path(self, rel, how):
        from pathlib import Path
        path = os.path.join(self.root, rel)
        if how == 1:
            return Path(path)
        if how == 2:
            os.chdir(self.root)
            return rel
        if how == 3:
            os.chdir(os.path.dirname(path))
            return Path(os.path.basename(path))
        return path

    def op_open(self, k, j, how, dhow, update):
        """Open with an index elsewhere."""
        import dascore as dc
        # the relative spellings need the same working directory
        dpath = self.path(f"data/d{k}", dhow if how in (0, 1) else min(dhow, 1))
        ipath = self.path(idx(k, j), min(how, 2) if j == 2 else how)
        sp = dc.spool(dpath, index_path=ipath)
        self.held[k] = (sp, str(sp.indexer.index_path))
        if update:
            sp = sp.update(progress=None)
            self.held[k] = (sp, str(sp.indexer.index_path))
        return str(sp.indexer.index_path)

    def op_query(self, k, how, ask):
        import dascore as dc
        sp = dc.spool(self.path(f"data/d{k}", how))
        if ask == 1:
            sp = sp.update(progress=None)
        if ask:
            tags = sorted(set(sp.get_contents()["tag"]))
            if tags != [f"d{k}"]:
                raise Violation("wrong-contents", f"directory {k}: tags {tags} from index {sp.indexer.index_path}")
            sp[0].data.sum()
        self.held.setdefault(k, (sp, str(sp.indexer.index_path)))
        return str(sp.indexer.index_path)

    def op_held(self, k):
        if k not in self.held:
            return None
        sp, path = self.held[k]
        if str(sp.indexer.index_path) != path:
            raise Violation("moved", f"a spool's index moved from {path} to {sp.indexer.index_path}")
        tags = sorted(set(sp.update(progress=None).get_contents()["tag"]))
        if tags != [f"d{k}"]:
            raise Violation("wrong-contents", f"directory {k}: tags {tags} from index {path}")
        return path


class WORLD(World):
    prop = "C13"
    quick_runs = 320
    thorough_runs = 20000
    real = ("directory spool and indexer, index location record, file system and file locks, separate processes",)
    stubs = ("order of the processes' system calls on the record", "errors, torn writes and crashes at those calls",
             "unwritable directories (writing calls fail)", "clock")
    rule = ("Histories of opening directories with an index elsewhere and of plain opens by two to four processes; within a "
            "step several processes run at once, switched at every system call on the record; calls fail, tear or kill their "
            "process; the record is damaged or removed between steps.")
    assumptions = ("file locks of the operating system work", "the record's directory is writable unless a fault is injected",
                   "damage that leaves a valid record with altered paths cannot be detected")

    def setup(self):
        specs = [dict(kind="DASDAE", ext=".h5", cuts=[1], patches=[dict(id=100 + k, t=k * 1000, nt=4, dt=100, nd=2, tag=f"d{k}")])
                 for k in range(4)]
        self.files = [c["versions"][0]["files"][""] for c in dirs.build_corpus(specs)]

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)
        self.map = os.path.join(ctx.root, "xdg", "cache_paths.json")

    # -------------------------------------------------------------- generation
    def op(self, rng, nd):
        k = rng.randrange(nd)
        r = rng.random()
        if r < 0.55:
            return ["open", k, rng.randrange(3), rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 0, 1, 2]), int(rng.random() < 0.3)]
        if r < 0.9:
            return ["query", k, rng.choice([0, 0, 1, 2]), rng.randrange(3)]
        return ["held", k]

    def fault(self, rng):
        r = rng.random()
        cls = rng.choice([shim.OPEN, shim.OPENW, shim.READ, shim.WRITE, shim.RENAME, shim.CLOSE, shim.UNLINK])
        nth = rng.choice([1, 1, 1, 2, 3])
        if r < 0.3:
            return [cls, nth, shim.CRASH_BEFORE, 0]
        if r < 0.55:
            return [cls, nth, shim.CRASH_AFTER, 0]
        if r < 0.7:
            return [shim.WRITE, 1, shim.TORN_CRASH, rng.choice([1, 10, 60, 100])]
        if r < 0.75:
            return [shim.WRITE, 1, shim.SHORT, rng.choice([1, 10, 60])]
        err = {shim.WRITE: ["ENOSPC", "EIO"], shim.READ: ["EIO"], shim.CLOSE: ["EIO", "ENOSPC"]}.get(cls, ["EIO", "EACCES", "EMFILE", "EROFS"])
        return [cls, nth, shim.ERR, rng.choice(err)]

    def gen(self, rng, tier):
        np_, nd = rng.randint(2, 4), rng.randint(2, 4)
        steps = []
        ro = [k for k in range(nd) if rng.random() < 0.2]
        for _ in range(rng.randint(2, 7 if tier == "quick" else 20)):
            r = rng.random()
            if r < 0.55:
                procs = rng.sample(range(np_), rng.randint(2, np_))
                ops = [[p, self.op(rng, nd), self.fault(rng) if rng.random() < 0.25 else None] for p in procs]
                sw = [[rng.choice([0, 1, 1, 2, 3, 5, 8, 12]), rng.randrange(8)] for _ in range(rng.randint(1, 25))]
                steps.append(["par", ops, sw])
            elif r < 0.85:
                steps.append(["par", [[rng.randrange(np_), self.op(rng, nd), self.fault(rng) if rng.random() < 0.3 else None]], []])
            elif r < 0.95:
                steps.append(["damage", rng.choice(DAMAGE)])
            else:
                steps.append(["restart", rng.randrange(np_)])
        return dict(np=np_, nd=nd, ro=ro, steps=steps, listing=rng.randrange(4))

    # -------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        self.ctx, self.root, self.nd, self.ro = ctx, ctx.root, plan["nd"], plan["ro"]
        os.makedirs(os.path.join(ctx.root, "idx"))
        for k in range(self.nd):
            d = os.path.join(ctx.root, "data", f"d{k}")
            os.makedirs(d)
            with open(os.path.join(d, "a.h5"), "wb") as f:
                f.write(self.files[k])
        self.loc = {k: {OWN} for k in range(self.nd)}
        self.all = {k: {OWN} for k in range(self.nd)}      # ever recorded
        self.procs = [Proc(Agent(ctx.root)) for _ in range(plan["np"])]
        try:
            for st in plan["steps"]:
                if st[0] == "par":
                    self.par(st[1], st[2])
                elif st[0] == "damage":
                    self.damage(st[1])
                else:
                    self.restart(st[1])
            fresh = len(self.procs)
            self.procs.append(Proc(Agent(ctx.root)))
            for p in range(len(self.procs)):
                for k in range(self.nd):
                    self.par([[p, ["query", k, 0, 2 if p == fresh else 0], None]], [])
        finally:
            for p in self.procs:
                p.kill()

    def restart(self, p):
        self.procs[p % len(self.procs)].kill()
        self.procs[p % len(self.procs)] = Proc(Agent(self.root))

    def damage(self, kind):
        ctx = self.ctx
        if not os.path.exists(self.map):
            return
        with open(self.map, "rb") as f:
            old = f.read()
        new = {"garbage": b"\x93{not a record", "empty": b"", "list": b"[1, 2]", "number": b"17", "half": old[:len(old) // 2],
               "latin": b"\xff\xfe" + old, "values": json.dumps({os.path.join(self.root, "data", f"d{k}"): [3, None, {"a": []}, [1]][k] for k in self.loc}).encode(), "null": b"null",
               "zeros": b"\0" * 100, "gone": None}[kind]
        os.remove(self.map)
        if new is not None:
            with open(self.map, "wb") as f:
                f.write(new)
        ctx.fault("damaged record")
        ctx.log("damage", kind)
        for k in self.loc:
            # nothing recorded is left, except what an own name for an unwritable directory gives
            self.loc[k] = {OWN} | ({x for x in self.all[k] if "idx/" not in x} if k in self.ro else set())

    def place(self, k, path):
        rel = os.path.relpath(path, self.root)
        if rel == f"data/d{k}/.dascore_index.h5" or os.path.dirname(rel) == f"data/d{k}":
            return OWN
        return rel

    def has_own(self, k):
        d = os.path.join(self.root, "data", f"d{k}")
        return any("index" in n for n in os.listdir(d))

    def par(self, ops, switches):
        ctx = self.ctx
        ops = [[p % len(self.procs), op, f] for p, op, f in ops]
        ops = list({o[0]: o for o in ops}.values())
        ops = [[p, [op[0], op[1] % self.nd] + op[2:], f] for p, op, f in ops]
        prior = {k: set(v) for k, v in self.loc.items()}
        own0 = {k: self.has_own(k) for k in self.loc}
        step = len(ops) > 1
        state = {}
        for p, op, f in ops:
            self.procs[p].start("run", op, f, self.ro, step)
            state[p] = "start"
        out, trace = {}, []
        cur, sw, gap, streak, blocked = None, list(switches), None, 0, set()
        while len(out) < len(ops):
            ready = [p for p, _, _ in ops if p not in out and p not in blocked]
            if not ready:
                raise Violation("deadlock", f"processes {sorted(blocked)} wait for each other's locks")
            if gap is None and sw:
                gap, pick = sw.pop(0)
            if cur in ready and gap and streak < 300:
                gap -= 1
                streak += 1
            elif gap is not None and streak < 300 and cur in ready:
                others = [p for p in ready if p != cur]
                cur = others[pick % len(others)] if others else cur
                gap, streak = None, 0
            elif cur not in ready or streak >= 300:
                others = [p for p in ready if p != cur] or ready
                cur = others[0 if gap is None else pick % len(others)]
                streak = 0
            else:
                streak += 1
            pr = self.procs[cur]
            if state[cur] == "parked":
                pr._send(("down", None))
            state[cur] = "running"
            st, val = pr._recv(100)
            trace.append((cur, st, val if st == "up" else 0))
            if st == "up":
                state[cur] = "parked"
                if val[0] == "blocked":
                    blocked.add(cur)
                else:
                    blocked.clear()
                if len(trace) > 20000:
                    raise Violation("no-progress", "20000 calls on the record")
                continue
            blocked.clear()
            if st == "crashed":
                out[cur] = ("crashed", None, 1)
                self.procs[cur] = Proc(Agent(self.root))
            elif st == "ok":
                out[cur] = val
            elif st == "violation":
                raise Violation(*val)
            elif st in ("died", "timeout"):
                raise Violation("process-" + st, f"{[o for o in ops if o[0] == cur]}: {val}")
            else:
                raise core.HarnessError(str(val))
        self.judge(ops, out, prior, own0)
        ctx.state([o[1] for o in ops], [(p, v) for p, _, v in trace], [o[2] for o in ops])
        ctx.log("par", [o[1] for o in ops], sorted(out.items()), core.jhash(trace))

    def judge(self, ops, out, prior, own0):
        ctx = self.ctx
        target = {k: set() for k in self.loc}
        for p, op, f in ops:
            if op[0] == "open":
                target[op[1]].add(idx(op[1], op[2]))
            if f and out[p][2]:
                ctx.fault({shim.ERR: "error", shim.SHORT: "short write", shim.TORN_CRASH: "torn write and crash"}.get(f[2], "crash")
                          + " at " + shim.CLASS_NAMES[f[0]], 1)
        lost = any(f and out[p][2] and f[2] == shim.ERR and f[0] != shim.UNLINK for p, _, f in ops)
        done = {k: set() for k in self.loc}
        maybe = {k: set() for k in self.loc}
        for p, op, f in ops:
            st, val, fired = out[p]
            k = op[1]
            if st == "err" and not fired:
                raise Violation("raised", f"{op} without a fault of its own: {val}")
            if op[0] == "held":
                continue
            if op[0] == "open":
                want = idx(k, op[2])
                (done if st == "ok" else maybe)[k].add(want)
                if st == "ok" and self.place(k, val) != want:
                    raise Violation("wrong-index", f"{op} uses {val}")
                continue
            if st != "ok":
                if k in self.ro:
                    maybe[k].add(OWN)
                continue
            got = self.place(k, val)
            allowed = set(prior[k]) | target[k]
            if own0[k] or self.has_own(k):
                allowed = {OWN} if own0[k] else allowed | {OWN}
            if fired:
                allowed.add(OWN)
            new_ok = k in self.ro and OWN in allowed and not own0[k]
            if got not in allowed and not (new_ok and not got.startswith(("data/", "idx/"))):
                raise Violation("wrong-index", f"a spool on directory {k} uses {got}, recorded were {sorted(allowed)}, "
                                f"{'with' if fired else 'without'} a fault; steps {ops}")
            if got not in allowed and OWN in prior[k]:
                done[k].add(got)             # a place of its own was recorded for the unwritable directory
        for k in self.loc:
            new = done[k] | maybe[k]
            if done[k]:
                self.loc[k] = new
                # a plain open may have looked before and recorded its own place after
            elif maybe[k]:
                self.loc[k] = prior[k] | new
            if lost and k in self.ro:
                self.loc[k] |= {OWN}
            self.all[k] |= self.loc[k]

    def simplify(self, plan):
        for i, st in enumerate(plan["steps"]):
            def sub(new):
                return dict(plan, steps=plan["steps"][:i] + [new] + plan["steps"][i + 1:])
            if st[0] != "par":
                continue
            for j, (p, op, f) in enumerate(st[1]):
                if len(st[1]) > 1:
                    yield sub(["par", st[1][:j] + st[1][j + 1:], st[2]])
                if f:
                    yield sub(["par", st[1][:j] + [[p, op, None]] + st[1][j + 1:], st[2]])
                if op[0] == "open" and any(op[3:]):
                    yield sub(["par", st[1][:j] + [[p, op[:3] + [0, 0, 0], f]] + st[1][j + 1:], st[2]])
            n = len(st[2])
            while n:
                for j in range(0, len(st[2]), n):
                    yield sub(["par", st[1], st[2][:j] + st[2][j + n:]])
                n //= 2
        if plan["ro"]:
            yield dict(plan, ro=[])
