"""C15: a process with a history against a fresh one: the same calls must give the same results.

State measure: (operations of the history before the probe, probe operation, outcome).
"""
import os
import re
import shutil

from .. import core, dirs, interrupt, shim
from ..core import Proc, Violation, World
from .worlds_specs import patch_spec

SLOTS = ("a.h5", "b.hdf5", "c.dat", "sub/d.h5", "e", "f.pkl")
# operations that use state of the process: registries, caches, shared generators
STATEFUL = ("e_patch", "e_patch", "ns_patch", "ns_spool", "ns_names", "ns_viz", "ns_none", "fmt_known", "u_quantity", "u_unit", "u_factor", "u_conv",
            "set_units", "convert_units", "t_dt", "t_td", "s_get", "s_select_tag", "s_select_time", "s_chunk", "s_contents", "s_update")
FILE_OPS = ("read", "scan", "format", "spool", "spool_df", "dir", "dir_df", "dir_old", "file_first", "file_chunk", "scan_df", "file_select", "write", "held", "held_select")


def file_op(name, data, slot, arg, held):
    import dascore as dc
    import numpy as np
    path = os.path.join(data, slot)
    if name == "read":
        return list(dc.read(path))
    if name == "scan":
        return sorted(str(sorted((k, str(v)) for k, v in a.flat_dump().items())) for a in dc.scan(path, progress=None))
    if name == "scan_df":
        return dc.scan_to_df(path)
    if name == "format":
        return dc.get_format(path)
    if name == "spool":
        return list(dc.spool(path))
    if name == "spool_df":
        return dirs.df_rows(dc.spool(path).get_contents())
    if name == "dir":
        return sorted(repr(core_digest(p)) for p in dc.spool(data).update(progress=None))
    if name == "dir_df":
        return dirs.df_rows(dc.spool(data).update(progress=None).get_contents())
    if name == "dir_old":
        return dirs.df_rows(dc.spool(data).get_contents())
    if name == "file_first":
        return dc.spool(path)[0]
    if name == "file_chunk":
        return list(dc.spool(path).chunk(time=[0.3, 1, None][arg % 3], conflict="drop"))
    if name == "file_select":
        t = np.datetime64("2020-01-01T00:00:00", "ns") + np.timedelta64(arg * 300, "ms")
        return list(dc.spool(path).select(time=(t, t + np.timedelta64(3, "s"))))
    if name in ("held", "held_select"):     # one spool object for the life of the process
        if not held:
            held.append(dc.spool(data))
        sp = held[0].update(progress=None)
        if name == "held_select":
            t = np.datetime64("2020-01-01T00:00:00", "ns") + np.timedelta64(arg * 300, "ms")
            sp = sp.select(time=(t, t + np.timedelta64(3 + 1000 * (arg % 2), "s")))
        return dirs.df_rows(sp.get_contents())
    if name == "write":
        out = os.path.join(data, os.pardir, f"out{arg}.h5")
        if os.path.exists(out):
            os.remove(out)
        dc.write(dc.spool(path), out, "dasdae")
        return list(dc.read(out))


def core_digest(v):
    from .. import ops
    return ops.digest(v)


class Agent:
    def __init__(self, data):
        import sys
        self.data = data
        self.n = 0
        self.held = []
        sys.unraisablehook = lambda a: None         # interrupts inside destructors

    def values(self, specs):
        from .. import gen, ops
        self.pool = {"patch": [], "spool": [], "coord": [], "cm": []}
        for s in specs:
            self.keep(gen.make_patch(s))
        p = self.pool["patch"]
        import dascore as dc
        self.keep(dc.spool(list(p)))
        for d in p[0].coords.coord_map:
            self.keep(p[0].get_coord(d))
        self.keep(p[0].coords)
        return ops

    def derived(self):
        """Spools whose patches are made when they are asked for."""
        for s in list(self.pool["spool"][-2:]):
            for fn in (lambda s: s.chunk(time=0.4, conflict="drop"), lambda s: s.select(tag="p*").sort("tag")):
                try:
                    self.keep(fn(s))
                except Exception:  # noqa: BLE001
                    pass        # not possible with these patches

    def keep(self, v):
        from .. import ops
        k = ops.classify(v)
        if k == "patch" and v.size > 4000 or k == "spool" and len(v) > 8:
            return
        if k != "other":
            self.pool[k].append(v)

    def call(self, name, params, picks, fault=None):
        """(outcome, value)"""
        import copy
        from .. import ops
        if name in FILE_OPS:
            def fn():
                return file_op(name, self.data, params[0], params[1], self.held)
        else:
            kinds, _, f = ops.OPS[name]
            vals = []
            for k, i in zip(kinds, picks):
                c = self.pool[k]
                vals.append(c[i % len(c)])
            params = copy.deepcopy(params)

            def fn():
                return f(*vals, params)
        frule = None
        if fault and fault[0] in ("EIO", "ENOENT", "EMFILE"):
            shim.reset()
            shim.clear()
            frule = shim.rule(shim.READ | shim.OPEN, shim.ERR, nth=fault[1], n=fault[2], arg={"EIO": 5, "ENOENT": 2, "EMFILE": 24}[fault[0]])
        try:
            if fault and frule is None:
                out, v, _ = interrupt.call(fn, fault[1], fault[0])
            else:
                try:
                    out, v = "ok", fn()
                except Exception as e:  # noqa: BLE001
                    out, v = "err", e
        finally:
            if frule is not None:
                self.fired = shim.fired(frule)
                shim.clear()
        return out, v

    def history(self, step, specs):
        """Outcome label and faults fired."""
        import warnings
        self.fired = 0
        if step[0] == "call":
            self.values(specs)
            out, v = self.call(*step[1:])
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                try:
                    core_digest(x)       # looking at a result is use, too
                except Exception:  # noqa: BLE001
                    pass
            return out, self.fired
        if step[0] == "plugin":
            from dascore.io.core import FiberIO
            self.n += 1
            type(f"Vsim{self.n}", (FiberIO,), dict(name=f"VSIM{self.n}", version="1", preferred_extensions=("h5", "dat")[:step[1]],
                                                   get_format=lambda self, resource, **kw: False, __module__="vsim"))
        elif step[0] == "namespace":
            from dascore.utils.namespace import PatchNameSpace, SpoolNameSpace
            self.n += 1
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                base = (PatchNameSpace, SpoolNameSpace)[step[1]]
                type(f"Other{self.n}", (base,), dict(name=f"other{self.n}", hello=lambda self: 1, __module__="vsim"))
        elif step[0] == "chdir":
            os.chdir(self.data if step[1] else "/")
        elif step[0] == "gc":
            import gc
            gc.collect()
        return step[0], 0

    def probe(self, chain, specs, noise, slots):
        """Digests of a chain of calls; noise calls on the same values run in between."""
        import warnings

        import dascore as dc
        warnings.simplefilter("ignore")
        ops = self.values(specs)
        for s in slots:
            try:
                self.keep(dc.spool(os.path.join(self.data, s)))
            except Exception:  # noqa: BLE001
                pass        # not a file the library knows
        if uses_spools(chain):
            self.derived()
        out = []
        if noise and noise[0] == "pickled":
            for k in self.pool:
                self.pool[k] = [again(x) for x in self.pool[k]]
        for i, (name, params, picks) in enumerate(chain):
            if noise and noise[0] == "calls":
                for nz in noise[1][i % len(noise[1])]:
                    self.call(*nz)
            st, v = self.call(name, params, picks)
            if st == "ok":
                try:
                    out.append(("ok", ops.digest(v)))
                except Exception as e:  # noqa: BLE001
                    out.append(("undigestible", scrub(e)))
                for x in (v if isinstance(v, (list, tuple)) else [v]):
                    self.keep(x)
            else:
                out.append((st, scrub(v)))
        return out


def uses_spools(calls):
    from .. import ops
    return any(c[0] in ops.OPS and "spool" in ops.OPS[c[0]][0] for c in calls)


def again(x):
    import pickle
    try:
        return pickle.loads(pickle.dumps(x))
    except Exception:  # noqa: BLE001
        return x        # some spools cannot be pickled


def scrub(e):
    if isinstance(e, OSError):      # HDF5 puts the time, a descriptor and addresses into its messages
        return f"{type(e).__name__} {e.errno}"
    return re.sub(r"0x[0-9a-f]+", "0x", f"{type(e).__name__}: {e}")[:400]


class WORLD(World):
    prop = "C15"
    quick_runs = 260
    thorough_runs = 12000
    real = ("all of the library's in-process operations, file reading, scanning, detection, spools, plugin and namespace registries",)
    stubs = ("interrupts (raised at a chosen line of the library)", "errors of opening and reading files", "clock")
    rule = ("A history of calls (many failing or interrupted), files replaced at the same path, plugins and namespaces registered, "
            "then chains of calls on fresh values, with other calls on the same values in between, compared with "
            "the same chains alone in a fresh process on the same files.")
    assumptions = ("a file replaced with equal size and equal modification time in nanoseconds cannot be told from the old one",)

    def setup(self):
        import matplotlib.pyplot, scipy.fft, scipy.interpolate, scipy.ndimage, scipy.signal, segyio  # noqa: E401, F401
        fams = dirs.build_corpus()
        rng = core.rng_for("c15", 1)
        self.corpus = [c for c in fams if c["spec"]["kind"] in ("XMLBINARY", "VENDOR", "PICKLE", "SEGY")]
        self.corpus += [c for c in fams if c["spec"]["kind"] in ("DASDAE", "JUNK") and not any(p.get("special") for p in c["spec"].get("patches", []))][:6]
        extra = [dict(kind="XMLBINARY", ext="", t=4000, cuts=[1, 2], xml=dict(iu="iu1", rate=2000, nd=4, nt=10)),
                 dict(kind="XMLBINARY", ext="", t=4000, cuts=[1, 2], xml=dict(iu="iu1", rate=500, nd=6, nt=10)),
                 dict(kind="VENDOR", ext=".bsl", fmt="FEBUS_G1_CSV", i=9, cuts=[4])]
        self.corpus += dirs.build_corpus(extra)
        self.slotnames = SLOTS
        from .. import ops
        self.names = sorted(ops.OPS)

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # -------------------------------------------------------------- generation
    def a_call(self, rng, near):
        from .. import ops
        picks = [rng.randrange(1000) for _ in range(3)]
        r = rng.random()
        if near and r < 0.5:
            name, params = rng.choice(near)
            if rng.random() < 0.6:
                params = self.params(rng, name)
            return [name, params, picks]
        name = rng.choice(FILE_OPS) if r < 0.7 else rng.choice(STATEFUL) if r < 0.82 else rng.choice(self.names)
        return [name, self.params(rng, name), picks]

    same = {}       # parameters a plan likes to repeat

    def params(self, rng, name):
        if name in self.same and rng.random() < 0.6:
            return self.same[name]
        from .. import ops
        return [rng.choice(SLOTS), rng.randrange(6)] if name in FILE_OPS else ops.OPS[name][1](rng)

    def fault(self, rng):
        if rng.random() < 0.3:
            return [rng.choice(["EIO", "ENOENT", "EMFILE"]), rng.randint(1, 25), rng.choice([1, 1, 3, 1000])]
        return [rng.choice(["kbd", "cancel"]), int(10 ** rng.uniform(0, 3.2))]

    def gen(self, rng, tier):
        specs = [patch_spec(rng, i) for i in range(2)]
        steps, near = [], []
        self.same = {}
        focus = rng.sample(self.names, 4)
        if rng.random() < 0.6:
            focus = rng.sample(STATEFUL, 2) + focus[:1]
        self.same = {n: self.params(rng, n) for n in focus}
        slots = rng.sample(SLOTS, rng.randint(1, 3))
        for s in slots:
            steps.append(["put", s, rng.randrange(len(self.corpus)), rng.randrange(3), 0])
        for _ in range(rng.randint(3, 12 if tier == "quick" else 40)):
            r = rng.random()
            if r < 0.22:
                steps.append(["put", rng.choice(slots), rng.randrange(len(self.corpus)), rng.randrange(3), rng.randrange(3)])
            elif r < 0.27:
                steps.append([rng.choice(["plugin", "namespace", "chdir"]), rng.randrange(2)])
            elif r < 0.31:
                steps.append(["gc"])
            elif r < 0.34:
                steps.append(["rm", rng.choice(slots)])
            elif r < 0.8:
                c = self.a_call(rng, near)
                if rng.random() < 0.4:
                    c[0] = rng.choice(focus)
                    c[1] = self.params(rng, c[0])
                elif c[0] in FILE_OPS:
                    c[1][0] = rng.choice(slots)
                near.append(c[:2])
                steps.append(["call"] + c + [self.fault(rng) if rng.random() < 0.35 else None])
            else:
                steps.append(self.probe_step(rng, near, slots, focus))
        steps.append(self.probe_step(rng, near, slots, focus))
        return dict(specs=specs, steps=steps, listing=rng.randrange(3))

    def probe_step(self, rng, near, slots, focus):
        chain = []
        for _ in range(rng.randint(1, 4)):
            c = self.a_call(rng, near)
            if rng.random() < 0.35:
                c[0] = rng.choice(focus)
                c[1] = self.params(rng, c[0])
            if c[0] in FILE_OPS:
                c[1] = [rng.choice(slots), c[1][1]]
            chain.append(c)
        noise = None
        r = rng.random()
        if r < 0.45:
            noise = ["calls", [[self.noise_call(rng, slots) for _ in range(rng.randint(1, 3))] for _ in chain]]
        elif r < 0.55:
            noise = ["pickled"]
        return ["probe", chain, [patch_spec(rng, 10 + i) for i in range(2)], noise, rng.choice([[], [""], slots[:1], slots[-1:] + [""]])]

    def noise_call(self, rng, slots):
        c = self.a_call(rng, None)
        if c[0] == "write":
            c[0] = "read"
        if c[0] in FILE_OPS:
            if c[0].startswith("dir"):
                c[0] = "scan"
            c[1] = [rng.choice(slots), c[1][1]]
        return c + [self.fault(rng) if rng.random() < 0.4 else None]

    # -------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        self.ctx = ctx
        self.data = os.path.join(ctx.root, "data")
        self.snap = os.path.join(ctx.root, "snapshot")
        os.makedirs(self.data)
        shim.root(self.data)
        self.mtimes = {}
        self.old = Proc(Agent(self.data))
        done = []
        try:
            for st in plan["steps"]:
                if st[0] == "put":
                    self.put(*st[1:])
                elif st[0] == "rm":
                    self.rm(st[1])
                elif st[0] == "probe":
                    self.probe(*st[1:], done)
                else:
                    out, fired = self.old.call("history", st, plan["specs"])
                    ctx.fault("failed open or read", fired)
                    if out == "interrupted":
                        ctx.fault("interrupt")
                    ctx.log(st, out)
                    done.append(st[1] if st[0] == "call" else st[0])
        finally:
            self.old.kill()

    def rm(self, slot):
        path = os.path.join(self.data, slot)
        if os.path.isdir(path):
            shutil.rmtree(path)
        elif os.path.exists(path):
            os.remove(path)

    def put(self, slot, fam, ver, clock):
        path = os.path.join(self.data, slot)
        vs = self.corpus[fam % len(self.corpus)]["versions"]
        files = vs[min(ver, len(vs) - 1)]["files"]
        old = {}
        if os.path.isdir(path):
            old = {n: os.stat(os.path.join(path, n)) for n in os.listdir(path)}
        elif os.path.exists(path):
            old = {"": os.stat(path)}
        self.rm(slot)
        shim.advance(0.05)
        now = int(shim.now() * 1e9)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if "" not in files:
            os.makedirs(path)
        for n, b in files.items():
            p = os.path.join(path, n) if n else path
            with open(p, "wb") as f:
                f.write(b)
            t = now
            if clock and n in old and old[n].st_size != len(b):
                t = old[n].st_mtime_ns - (10 ** 9 if clock == 2 else 0)
            os.utime(p, ns=(t, t))
        self.ctx.log("put", slot, fam, ver)

    def probe(self, chain, specs, noise, slots, done):
        ctx = self.ctx
        shutil.rmtree(self.snap, ignore_errors=True)
        shutil.copytree(self.data, self.snap)
        t0 = shim.now()
        fresh = Proc(Agent(self.data))
        try:
            want = fresh.call("probe", chain, specs, None, slots)
        finally:
            fresh.kill()
        shutil.rmtree(self.data)
        shutil.copytree(self.snap, self.data)
        shim.advance(t0 - shim.now())
        got = self.old.call("probe", chain, specs, noise, slots)
        for (name, params, _), w, g in zip(chain, want, got):
            ctx.state(done[-3:], name, w[0], noise and noise[0])
            ctx.log("probe", name, w[0])
            if w != g:
                raise Violation("differs", f"{name} {params} after {done} noise {bool(noise)}: fresh {short(w, g)}")


def short(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                return short(a.get(k), b.get(k), f"{path}/{k}")
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return short(x, y, f"{path}/{i}")
    return f"{path} {str(a)[:300]} here {str(b)[:300]}"
