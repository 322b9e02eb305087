"""C11: spool.map through executors whose order, workers, pickling and failures the plan decides.

State measure: (spool kind, executor kind, number of groups, order of completion, outcome).
"""
import functools
import os
import pickle
import shutil
import warnings

from .. import threads
threads.install()
from .. import core, dirs, gen, shim  # noqa: E402
from ..core import Violation, World  # noqa: E402

SEEN = []


class Boom(Exception):
    pass


def key(p):
    return gen.dkey(gen.digest(p))


class F:
    """The mapped function: picklable, remembers its calls, may raise or end the process."""

    def __init__(self, ret, bad=()):
        self.ret, self.bad = ret, list(bad)
        self.__name__ = "f"

    def __call__(self, patch, **kw):
        k = key(patch)
        SEEN.append(k)
        if DIE["in"] is not None:
            DIE["in"] -= 1
            if DIE["in"] < 0:
                os._exit(shim.CRASH_CODE)
        if k in self.bad:
            raise Boom(k)
        r = self.ret
        if r == "none":
            return None
        if r == "list":
            return [k, sorted(kw.items())]
        if r == "empty":
            return []
        if r == "patch":
            return patch.update_attrs(tag="seen")
        if r == "mutate":
            patch.data.flags.writeable and patch.data.__setitem__(Ellipsis, 0)
            return k
        return (k, sorted(kw.items()))


DIE = {"in": None}


def f_plain(patch, **kw):
    return F("tuple")(patch, **kw)


def plain(x):
    import dascore as dc
    return key(x) if isinstance(x, dc.Patch) else x


def make_spool(plan, data):
    import dascore as dc
    kind = plan["spool"]
    ps = [gen.make_patch(s) for s in plan["patches"]]
    if kind == "memory":
        sp = dc.spool(ps)
    elif kind == "file":
        sp = dc.spool(os.path.join(data, "all.h5"))
    elif kind == "df":
        sp = dc.spool(dc.scan_to_df(ps)) if ps else dc.spool([])
        sp = dc.spool(ps).sort("time") if ps else sp
    else:
        sp = dc.spool(os.path.join(data, "d")).update(progress=None)
    for op in plan["view"]:
        sp = view(sp, op)
    return sp


def view(sp, op):
    name, a = op
    t0 = gen.T_BASE
    import numpy as np
    if name == "chunk":
        return sp.chunk(time=a / 10, conflict="drop")
    if name == "merge":
        return sp.chunk(time=None, conflict="drop")
    if name == "select":
        return sp.select(time=(t0 + np.timedelta64(a, "ms"), None))
    if name == "distance":
        return sp.select(distance=(1, 2))
    if name == "sort":
        return sp.sort("time" if a % 2 else "distance")
    if name == "slice":
        return sp[a % 3:]
    if name == "tag":
        return sp.select(tag="*" + str(a % 10))
    if name == "array":
        return sp[np.arange(len(sp))[::-1]] if len(sp) else sp
    raise core.HarnessError(name)


def build(plan, data):
    import dascore as dc
    warnings.simplefilter("ignore")
    os.makedirs(os.path.join(data, "d"))
    ps = [gen.make_patch(s) for s in plan["patches"]]
    if plan["spool"] == "file":
        dc.write(dc.spool(ps), os.path.join(data, "all.h5"), "DASDAE")
    if plan["spool"] == "dir":
        for k, p in enumerate(ps):
            fmt = "PICKLE" if k % 4 == 3 else "DASDAE"
            dc.write(dc.spool([p]), os.path.join(data, "d", f"f{k % 7}_{k}.{'pkl' if k % 4 == 3 else 'h5'}"), fmt)
        dc.spool(os.path.join(data, "d")).update(progress=None)


def expected(plan, data):
    """One result per patch, in spool order, from access by position."""
    warnings.simplefilter("ignore")
    try:
        sp = make_spool(plan, data)
        keys = [key(sp[k]) for k in range(len(sp))]
    except Exception as e:  # noqa: BLE001
        raise core.Skip(f"no such view: {e}") from None
    vals = []
    f = F(plan["ret"])
    for k in range(len(sp)):
        vals.append(plain(f(sp[k], **plan["kw"])))
    return keys, vals


class Worker:
    """A worker process: starts without any of the library's state."""

    def run(self, blob, die):
        warnings.simplefilter("ignore")
        DIE["in"] = die
        del SEEN[:]
        fn, item = pickle.loads(blob)
        try:
            return ("ok", pickle.dumps(fn(item)), list(SEEN))
        except Boom as e:
            return ("boom", pickle.dumps(e), list(SEEN))


class Client:
    """An executor: map(func, iterable) with results in the order of the iterable."""

    def __init__(self, plan, procs, note):
        self.plan, self.procs, self.note = plan, procs, note

    def order(self, n):
        return sorted(range(n), key=lambda k: core.jhash([self.plan["perm"], k])) if self.plan["perm"] else list(range(n))

    def map(self, func, items, **kw):
        kind = self.plan["exec"]
        if kind == "builtin":
            return map(func, items)
        items = list(items)
        self.note["groups"] = len(items)
        return getattr(self, kind)(func, items)

    def ordered(self, func, items):
        out = {}
        for k in self.order(len(items)):
            out[k] = self.one(func, items[k])
        return self.hand(out)

    @staticmethod
    def one(func, item):
        try:
            return ("ok", func(item))
        except Exception as e:  # noqa: BLE001
            return ("err", e)

    @staticmethod
    def hand(out):
        def gen_():
            for k in sorted(out):
                st, v = out[k]
                if st == "err":
                    raise v
                yield v
        return gen_()

    def eager(self, func, items):
        return list(self.ordered(func, items))

    def lazy(self, func, items):
        return (func(x) for x in items)

    def threaded(self, func, items):
        out = {}
        n = self.plan["workers"]
        todo = self.order(len(items))

        def body():
            while todo:
                k = todo.pop(0)
                out[k] = self.one(func, items[k])
        sched = threads.Sched(self.plan["switches"], (), self.plan["hot"])
        for st, v in sched.run([body] * n):
            if st == "err":
                raise v
        self.note["switch"] = len(sched.log)
        return self.hand(out)

    def process(self, func, items):
        out = {}
        crash = dict((a % max(len(items), 1), b) for a, b in self.plan["faults"])
        for j, k in enumerate(self.order(len(items))):
            blob = pickle.dumps((func, items[k]))
            w = j % len(self.procs)
            while True:
                st, val = self.procs[w].try_call("run", blob, crash.pop(k, None))
                if st != "crashed":
                    break
                self.note["crash"] = self.note.get("crash", 0) + 1
                self.procs[w] = core.Proc(Worker)       # the task is given to a new worker
            if st == "error":
                raise Violation("raised", f"in the worker: {val}")
            tag, res, seen = val
            SEEN.extend(seen)
            out[k] = ("ok", pickle.loads(res)) if tag == "ok" else ("err", pickle.loads(res))
        return self.hand(out)


def run_map(plan, data, keys):
    warnings.simplefilter("ignore")
    note = {}
    procs = [core.Proc(Worker) for _ in range(plan["workers"])] if plan["exec"] == "process" else []
    sp = make_spool(plan, data)
    if plan["touch"]:
        len(sp)
        if len(sp):
            sp[0]
    del SEEN[:]
    bad = [keys[b % len(keys)] for b in plan["bad"]] if keys else []
    f = F(plan["ret"], bad)
    if not bad and plan["fkind"] == "partial":
        f = functools.partial(f)
    elif not bad and plan["fkind"] == "lambda" and plan["exec"] != "process":
        g = f
        f = lambda p, **kw: g(p, **kw)  # noqa: E731
    elif not bad and plan["fkind"] == "plain" and plan["ret"] == "tuple":
        f = f_plain
    kw = dict(plan["kw"])
    if plan["exec"] != "serial":
        kw["client"] = Client(plan, procs, note)
        if plan["size"] is not None:
            kw["size"] = plan["size"]
    os.cpu_count = lambda: plan["cpus"]
    if plan["io"]:
        shim.root(data)
        ri = shim.rule(shim.READ, shim.ERR, plan["io"], 1, 5)
    try:
        try:
            res = ("ok", sp.map(f, progress=False, **kw))
        except Boom as e:
            res = ("boom", str(e))
        except OSError as e:
            if not plan["io"]:
                raise
            res = ("io", str(e))
        except Exception as e:  # noqa: BLE001
            if not (plan["io"] and shim.fired(ri)):
                raise
            res = ("io", core.describe(e))
    finally:
        if plan["io"]:
            note["eio"] = shim.fired(ri)
            shim.clear()
        for p in procs:
            p.kill()
    if res[0] == "ok":
        if not isinstance(res[1], list):
            raise Violation("differs", f"map returned a {type(res[1]).__name__}")
        res = ("ok", [plain(x) for x in res[1]])
    # the spool itself is unchanged
    after = [key(sp[k]) for k in range(len(sp))]
    return res, list(SEEN), note, bad, after


class WORLD(World):
    prop = "C11"
    quick_runs = 270
    thorough_runs = 20000
    real = ("spool.map and split, iteration and reading of spools, pickling, HDF5, PyTables, file system, worker processes",)
    stubs = ("executors (order of execution, assignment to workers, worker loss with re-execution)",
             "processor count", "thread scheduling", "clock")
    rule = ("Spools of 0-14 patches (memory, file, directory; selected, chunked, sorted, sliced) mapped serially and through "
            "eager, lazy, shuffled, threaded and pickling process executors with 1-4 workers, any group size and "
            "processor count, functions raising for some patches, workers dying and one failing read.")
    assumptions = ("the executor returns results in the order of its inputs, as concurrent.futures and dask do",
                   "a function does not raise StopIteration")

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    def setup(self):
        import dascore  # noqa: F401

    def gen(self, rng, tier):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 14])
        contiguous = rng.random() < 0.4
        patches = []
        units = rng.random() < 0.5
        for k in range(n):
            t = k * 1000 if contiguous else rng.randrange(20) * 700
            patches.append(dict(id=k, t=t, nt=10, dt=100, nd=3, tag="c" if contiguous else f"t{k}", cunits=units))
        views = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            views.append([rng.choice(["chunk", "merge", "select", "distance", "sort", "slice", "tag", "array"]),
                          rng.choice([3, 5, 7, 10, 25])])
        ex = rng.choice(["serial", "eager", "lazy", "ordered", "ordered", "builtin", "process", "process", "threaded", "threaded"])
        size = rng.choice([None, None, None, 1, 2, 3, 4, 5, 7, 100])
        sw = [[rng.choice([1, 2, 5, 20, 60]), rng.randrange(4), rng.choice([1, 1, 8, 30])] for _ in range(rng.randint(1, 10))]
        return dict(patches=patches, spool=rng.choice(["memory", "file", "dir", "dir"]), view=views, exec=ex, size=size,
                    cpus=rng.choice([None, 1, 2, 3, 4, 5, 8, 64]), workers=rng.randint(1, 4), perm=rng.choice([0, rng.randrange(1000)]),
                    ret=rng.choice(["tuple", "tuple", "none", "list", "empty", "patch", "mutate"]),
                    fkind=rng.choice(["obj", "partial", "lambda", "plain"]), kw=rng.choice([{}, {}, {"a": 1}, {"a": 1, "b": "x"}]),
                    bad=[rng.randrange(20)] if rng.random() < 0.2 else [], touch=rng.random() < 0.4, hot=rng.random() < 0.5,
                    switches=sw, faults=[[rng.randrange(14), rng.randrange(3)]] if rng.random() < 0.4 else [],
                    io=rng.randint(1, 60) if rng.random() < 0.1 and ex != "process" else 0, listing=rng.randrange(4))

    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        core.in_process(build, plan, data)
        keys, want = core.in_process(expected, plan, data)
        res, seen, note, bad, after = core.in_process(run_map, plan, data, keys)
        ctx.log(res[0], note)
        for k in seen:
            ctx.log("handled", k)
        for x in res[1] if res[0] == "ok" else [res[1]]:
            ctx.log("result", x)
        ctx.probe(plan["exec"])
        ctx.probe("patches", len(keys))
        ctx.fault("worker lost", note.get("crash", 0))
        ctx.fault("thread switch", note.get("switch", 0))
        ctx.fault("read error", note.get("eio", 0))
        ctx.fault("function raised", res[0] == "boom")
        ctx.fault("shuffled completion", bool(plan["perm"]) and note.get("groups", 0) > 1)
        ctx.state(plan["spool"], [v[0] for v in plan["view"]], plan["exec"], note.get("groups"), plan["perm"], res[0])
        if bad:
            if res[0] == "boom" and res[1] not in bad or res[0] == "ok":
                raise Violation("error-lost", f"the function raised for {bad} but map gave {str(res)[:300]}")
        elif res[0] == "io":
            if not note["eio"]:
                raise Violation("raised", str(res))
        else:
            if res[0] != "ok" or res[1] != want:
                raise Violation("differs", f"{str(res)[:500]} expected {len(want)}: {str(want)[:500]}")
            if sorted(seen) != sorted(keys):
                raise Violation("not-once", f"handled {len(seen)} of {len(keys)}: {seen} expected {keys}")
        if plan["ret"] != "mutate" and after != keys:
            raise Violation("spool-changed", f"{after} before {keys}")

    def simplify(self, plan):
        for k in ("io", "perm"):
            if plan[k]:
                yield dict(plan, **{k: 0})
        for k in ("view", "bad"):
            if plan[k]:
                yield dict(plan, **{k: plan[k][1:]})
                yield dict(plan, **{k: plan[k][:-1]})
        for n in range(len(plan["patches"])):
            yield dict(plan, patches=plan["patches"][:n] + plan["patches"][n + 1:])
        for k, v in (("ret", "tuple"), ("fkind", "obj"), ("kw", {}), ("touch", False), ("exec", "eager"), ("cpus", 1), ("workers", 1)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
