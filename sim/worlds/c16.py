"""C16: interrupts inside operations; afterwards everything must work as if they had not happened.

State measure: (place of the interrupt in the library's code, operation).
"""
import os
import shutil

import numpy as np

from .. import core, dirs, gen, interrupt, shim, vendor
from ..core import Proc, Violation, World
from . import c08, c15
from .worlds_specs import patch_spec

KINDS = ("DASDAE", "DASDAE", "DASDAE", "DASDAEI", "PICKLE", "SEGY", "XMLBINARY") + tuple(vendor.FORMATS)
FILE = tuple(x for x in c15.FILE_OPS if x not in ("write", "held", "held_select"))
WRITES = ("w_new", "w_spool", "w_append", "w_append", "w_over", "w_index", "w_indexed", "w_pickle", "w_segy", "w_rsf", "w_wav")
QUERIES = ([None, None], [0, 2000], [0, 5000], [3000, None], [None, 1000])
MUTATES = WRITES + ("dir", "dir_df", "s_update", "dir_old")


class Agent(c15.Agent):
    def run(self, call, at=None, kind="kbd", survey=False):
        """(outcome, value, ...)"""
        name, params, picks = call
        import copy
        from .. import ops
        if name == "formats":
            fn = formats
        elif name == "query":
            def fn():
                return self.query(*params)
        elif name.startswith("w_"):
            def fn():
                return self.write(name, *params)
        elif name in FILE:
            def fn():
                return c15.file_op(name, self.data, params[0], params[1], self.held)
        else:
            kinds, _, f = ops.OPS[name]
            vals = [self.pool[k][i % len(self.pool[k])] for k, i in zip(kinds, picks)]
            params = copy.deepcopy(params)

            def fn():
                return f(*vals, params)
        return interrupt.survey(fn) if survey else interrupt.call(fn, at, kind)

    def write(self, name, slot, arg):
        import dascore as dc
        kind = name[2:]
        path = os.path.join(self.data, slot)
        ps = [gen.make_patch(dict(id=700 + 10 * arg + j, t=j * 1000, nt=10, dt=100, nd=3, dtype="float32", tag=f"w{arg}_{j}"))
              for j in range(1 if kind in ("segy", "rsf", "wav") else 3)]
        new = os.path.join(self.data, f"new{arg}")
        if kind == "new":
            ps[0].io.write(new + ".h5", "dasdae")
            out = new + ".h5"
        elif kind == "spool":
            out = new + "s.h5"
            dc.write(dc.spool(ps), out, "dasdae")
        elif kind == "indexed":
            out = new + "i.h5"
            dc.write(dc.spool(ps), out, "dasdae", index=True)
        elif kind == "append":
            out = path
            if dc.get_format(path)[0] != "DASDAE":
                out = new + "a.h5"
            dc.write(dc.spool(ps), out, "dasdae")
        elif kind == "index":
            out = path
            dc.spool(path).update()
        elif kind == "over":
            out = new + ".pkl"
            if not os.path.exists(out):
                with open(out, "wb") as f:
                    f.write(b"old contents")
            dc.write(dc.spool(ps), out, "pickle")
        elif kind == "wav":
            out = new + ".wav"
            dc.write(ps[0], out, "wav")
            with open(out, "rb") as f:
                return f.read()
        elif kind == "rsf":
            out = new + ".rsf"
            dc.write(ps[0], out, "rsf", data_path=new + ".rsfdata")
            with open(new + ".rsfdata@", "rb") as f:        # the header has the time of writing
                return f.read()
        else:
            out = new + "." + kind
            dc.write(dc.spool(ps), out, kind, {"segy": "1.0"}.get(kind))
        return sorted(repr(c15.core_digest(p)) for p in dc.read(out))

    def query(self, a, b):
        """Ask the index of the spool on the directory, which remembers what it was asked."""
        t = [None if x is None else gen.T_BASE + np.timedelta64(x, "ms") for x in (a, b)]
        return sorted(repr(r) for r in dirs.df_rows(self.q.indexer.get_contents(time=tuple(t))))

    def begin(self, specs, slots, calls):
        import warnings

        import dascore as dc
        warnings.simplefilter("ignore")
        self.values(specs)
        if any(c[0] == "query" for c in calls):
            self.q = dc.spool(self.data)
        if not c15.uses_spools(calls):
            return
        for s in slots:
            try:
                self.keep(dc.spool(os.path.join(self.data, s)))
            except Exception:  # noqa: BLE001
                pass        # not a file the library knows
        self.derived()

    def interrupted(self, specs, slots, op, at, kind, calls):
        """Returns (outcome, place)."""
        self.begin(specs, slots, calls)
        out, v, n = self.run(op, at, kind)
        return out, v if out == "interrupted" else None

    def chain(self, specs, slots, calls, begin, count=None):
        """Results of calls, and a survey of the count-th call."""
        from .. import ops
        if begin:
            self.begin(specs, slots, calls)
        res, where = [], None
        for i, c in enumerate(calls):
            out, v, *more = self.run(c, survey=i == count)
            if i == count:
                where = more
            if out == "ok":
                try:
                    res.append(("ok", ops.digest(v)))
                except Exception as e:  # noqa: BLE001
                    res.append(("undigestible", c15.scrub(e)))
            else:
                res.append((out, c15.scrub(v)))
        return res, where

    def files(self, slots, update):
        """What each file holds, and the directory's contents."""
        import warnings

        import dascore as dc
        warnings.simplefilter("ignore")
        out = {}
        for s in slots:
            out[s] = self.one(lambda s=s: sorted(repr(c15.core_digest(p)) for p in dc.read(os.path.join(self.data, s))))

        def contents():
            sp = dc.spool(self.data)
            if update:
                sp = sp.update(progress=None)
            return dirs.df_rows(sp.get_contents())
        out["contents"] = self.one(contents)
        return out

    def exit(self):
        """What happens to open files when an interpreter ends."""
        import tables
        tables.file._open_files.close_all()

    def one(self, fn):
        try:
            return "ok", fn()
        except Exception as e:  # noqa: BLE001
            return "err", c15.scrub(e)


def formats():
    """All formats the library knows, by name and by extension."""
    import dascore as dc
    man = dc.io.core.FiberIO.manager
    out = [sorted(man.known_formats)]
    for name in sorted(man.known_formats):
        out.append(sorted(f.version for f in man.yield_fiberio(format=name)))
    for ext in ("h5", "hdf5", "segy", "pkl", "wav", "bsl", ""):
        out.append(sorted(f"{f.name} {f.version}" for f in man.yield_fiberio(extension=ext)))
    return out


class WORLD(World):
    prop = "C16"
    quick_runs = 300
    quick_wall = 58.0
    thorough_runs = 15000
    real = ("all of the library's operations on values, files, spools and directories", "h5py, PyTables, segyio, Python file I/O")
    stubs = ("interrupts (raised at a chosen executed line of the library)", "clock")
    rule = ("KeyboardInterrupt or a cancellation raised at a random line of a random operation in a fresh or long-lived process; the "
            "operation and others are then called again in this or a new process, on the same values and files, and compared with "
            "the same calls where nothing was interrupted; all files and the directory are read before and after.")
    assumptions = ("interrupts arrive between lines of the library's own code; imports and other libraries' code are atomic",)

    def setup(self):
        import matplotlib.pyplot, scipy.fft, scipy.interpolate, scipy.ndimage, scipy.signal, segyio  # noqa: E401, F401
        from .. import ops
        self.names = sorted(ops.OPS)
        self.maker = c08.WORLD()

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # -------------------------------------------------------------- generation
    def a_call(self, rng, nf, mutate=True):
        from .. import ops
        r = rng.random()
        picks = [rng.randrange(1000) for _ in range(3)]
        if r < 0.07:
            return ["query", rng.choice(QUERIES), picks]
        if r < 0.36:
            return [rng.choice(FILE), [rng.randrange(nf), rng.randrange(6)], picks]
        if r < 0.52 and mutate:
            return [rng.choice(WRITES), [rng.randrange(nf), rng.randrange(3)], picks]
        if r < 0.8:
            name = rng.choice([n for n in self.names if n.startswith("s_")])
        elif r < 0.9:
            name = rng.choice(c15.STATEFUL)
        else:
            name = rng.choice(self.names)
        return [name, ops.OPS[name][1](rng), picks]

    def gen(self, rng, tier):
        files = [[rng.choice(KINDS), k, rng.randint(1, 3), None] for k in range(rng.randint(1, 4))]
        steps = []
        warm = rng.random() < 0.7
        for _ in range(rng.randint(1, 3 if tier == "quick" else 8)):
            calls = [self.a_call(rng, len(files))]
            calls += [self.a_call(rng, len(files), False) for _ in range(rng.randint(0, 2))]
            k = 0
            if calls[0][0] not in MUTATES and len(calls) > 1:
                k = rng.randrange(len(calls))
                calls[0], calls[k] = calls[k], calls[0]
            if calls[0][0] == "query":      # its answer, then others which may use it
                calls = calls[:1] + [["query", rng.choice(QUERIES), calls[0][2]] for _ in range(rng.randint(0, 2))]
                k = 0
            if not warm and not steps:      # loading the plugins themselves
                calls, k = [["formats", None, None]] + calls[:1], 0
            steps.append(dict(specs=[patch_spec(rng, i) for i in range(2)], calls=calls, k=k, at=[self.place(rng) for _ in range(rng.randint(4, 24) if calls[k][0].startswith("s_") or calls[k][0] == "query" else rng.randint(1, 8))], end=rng.random() < 0.2,
                              kind=rng.choice(["kbd", "cancel"]), live=rng.choice(["new", "old"]), after=rng.choice(["same", "same", "new"]),
                              peek=rng.random() < 0.5, spools=[rng.random() < 0.3, rng.random() < 0.4],
                              again=rng.random() < 0.25, arrive=rng.random() < 0.3))
        return dict(files=files, steps=steps, warm=warm, indexed=rng.random() < 0.5, listing=rng.randrange(3))

    def place(self, rng):
        return [rng.choice(["any", "any", "memory", "file", "file"]), round(rng.random(), 6), rng.choice([0, rng.random(), 0.999999])]

    # -------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        self.ctx = ctx
        self.warm = plan["warm"]
        if self.warm:
            import dascore as dc
            dc.io.core.FiberIO.manager.load_plugins()
        self.data = os.path.join(ctx.root, "data")
        self.snap = os.path.join(ctx.root, "snapshot")
        late = os.path.join(ctx.root, "late")
        os.makedirs(self.data)
        os.makedirs(late)
        nf = len(plan["files"])
        first = [f for f in plan["files"] if f[1] < (nf + 1) // 2 or not plan["indexed"]]
        waiting = [f for f in plan["files"] if f not in first]
        self.slots = core.in_process(self.make, self.data, first)
        names = core.in_process(self.make, late, waiting)
        shim.root(self.data)
        self.live = None
        if plan["indexed"]:
            shim.advance(1.0)
            core.in_process(update, self.data)
        try:
            for st in plan["steps"]:
                shim.advance(1.0)
                if names and st["arrive"]:
                    n = names.pop(0)
                    os.rename(os.path.join(late, n), os.path.join(self.data, n))
                    now = int(shim.now() * 1e9)
                    for p in [n] + [os.path.join(n, x) for x in (os.listdir(os.path.join(self.data, n)) if os.path.isdir(os.path.join(self.data, n)) else [])]:
                        os.utime(os.path.join(self.data, p), ns=(now, now))
                    self.slots.append(n)
                    shim.advance(1.0)
                self.step(st)
        finally:
            if self.live:
                self.live.kill()

    def make(self, where, files):
        return [self.maker.make(where, f) for f in files]

    def restore(self, t0, snap=None):
        shutil.rmtree(self.data)
        shutil.copytree(snap or self.snap, self.data)
        shim.advance(t0 - shim.now())

    def alone(self, method, *args):
        p = Proc(Agent(self.data))
        try:
            return p.call(method, *args)
        finally:
            p.kill()

    def step(self, st):
        ctx = self.ctx
        slots = list(self.slots)
        calls = []
        for name, params, picks in st["calls"]:
            if name in FILE or name.startswith("w_"):
                params = [slots[params[0] % len(slots)], params[1]]
            calls.append([name, params, picks])
        if not self.warm and calls[0][0] != "formats":
            calls.append(["formats", None, None])
        mutates = any(c[0] in MUTATES for c in calls)
        pool = [] if mutates else ([""] if st["spools"][0] else []) + (slots[:1] if st["spools"][1] else [])
        op = calls[st["k"]]
        shutil.rmtree(self.snap, ignore_errors=True)
        shutil.copytree(self.data, self.snap)
        t0 = shim.now()
        want, where = self.alone("chain", st["specs"], pool, calls, True, st["k"])
        made = [n for n in sorted(os.listdir(self.data)) if n.startswith("new") and not n.endswith((".rsf", ".rsfdata@", ".wav"))]
        shim.advance(1.0)
        after = self.alone("files", slots + made, True) if mutates or st["end"] else None
        before = None
        if st["peek"] and mutates:
            self.restore(t0)
            before = self.alone("files", slots, False)
        self.restore(t0)
        # the same with an interrupt
        if self.live is None or st["live"] == "new":
            if self.live:
                self.live.call("exit")
                self.live.kill()
            self.live = Proc(Agent(self.data))
        target = op[1][0] if op[0].startswith("w_") else None
        ats = st["at"][:3] if mutates else st["at"]
        for i, at in enumerate(ats):
            if i and mutates:
                self.restore(t0)
            if i and (mutates or not self.warm):
                self.live.call("exit")
                self.live.kill()
                self.live = Proc(Agent(self.data))
            for _ in range(2 if st["again"] else 1):
                out, place = self.live.call("interrupted", st["specs"], pool, op, interrupt.pick(where, *at), st["kind"], calls)
                ctx.log(op[0], out, place)
                if out != "interrupted":
                    break
                ctx.fault("KeyboardInterrupt" if st["kind"] == "kbd" else "cancellation")
                ctx.state(place, op[0])
            ctx.probe(op[0])
            if before is not None and not i and out == "interrupted":
                t1 = shim.now()
                left = self.snap + "2"
                shutil.rmtree(left, ignore_errors=True)
                shutil.copytree(self.data, left)
                peek = self.alone("files", slots, False)
                self.restore(t1, left)
                for s in slots:
                    if s == target and op[0] in ("w_append", "w_index"):
                        continue
                    self.compare(f"{s} after interrupted {op} at {place}", before[s], peek[s])
                if peek["contents"][0] != "ok" and before["contents"][0] == "ok":
                    raise Violation("unreadable", f"contents after interrupted {op} at {place}: {peek['contents']}")
            if st["after"] == "new":
                self.live.call("exit")
                self.live.kill()
                self.live = Proc(Agent(self.data))
            shim.advance(0.001)
            only = range(len(calls)) if mutates or i == len(ats) - 1 else [st["k"]]
            got, _ = self.live.call("chain", st["specs"], pool, [calls[j] for j in only], st["after"] == "new")
            for c, w, g in zip([calls[j] for j in only], [want[j] for j in only], got):
                ctx.log(c[0], w[0])
                self.compare(f"{c[:2]} ({st['after']} process) after interrupted {op[:2]} at {place}", w, g)
        if after is None:
            return
        shim.advance(1.0)
        final = self.alone("files", slots + made, True)
        for s in final:
            self.compare(f"{s} (at the end) after interrupted {op[:2]} at {place}", after[s], final[s])

    def compare(self, what, w, g):
        if w != g:
            raise Violation("differs", f"{what}: uninterrupted {c15.short(w, g)}")

    def simplify(self, plan):
        for i, st in enumerate(plan["steps"]):
            def sub(**kw):
                return dict(plan, steps=plan["steps"][:i] + [dict(st, **kw)] + plan["steps"][i + 1:])
            for x in st["at"] if len(st["at"]) > 1 else ():
                yield sub(at=[x])
            if len(st["calls"]) > 1:
                yield sub(calls=[st["calls"][st["k"]]], k=0)
            for key, v in (("again", False), ("peek", False), ("arrive", False), ("live", "new"), ("after", "same"), ("spools", [False, False])):
                if st[key] != v:
                    yield sub(**{key: v})
        if plan["indexed"]:
            yield dict(plan, indexed=False)
        for i in range(len(plan["files"]) - 1, 0, -1):
            yield dict(plan, files=plan["files"][:i] + plan["files"][i + 1:])


def update(data):
    import warnings

    import dascore as dc
    warnings.simplefilter("ignore")
    dc.spool(data).update(progress=None)
