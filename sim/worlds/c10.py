"""C10: 2-4 threads of one process, switched at chosen statements of the library.

State measure: (operations of the threads switched between, file and line of the switch).
"""
import os
import shutil
import warnings

from .. import threads
threads.install()
from .. import core, dirs, vendor  # noqa: E402
from ..core import Violation, World  # noqa: E402

FOCUS = ([], [], ["io/core.py", "utils/plugins.py"], ["core/spool.py", "clients/dirspool.py", "utils/misc.py"],
         ["io/indexer.py", "utils/hdf5.py"], ["dascore/units.py"], ["core/coords.py", "core/coordmanager.py", "utils/misc.py"],
         ["utils/io.py", "io/core.py"], ["clients/filespool.py", "core/spool.py"], ["utils/namespace.py", "utils/plugins.py"],
         ["core/patch.py", "core/attrs.py", "utils/models.py", "utils/patch.py"], ["xml_binary/utils.py", "xml_binary/core.py"])
BY_PATH = ("read", "read", "scan", "format", "file_spool", "scan_dir", "dir_contents", "dir_select", "dir_item", "dir_len",
           "read_part")
DS = ("ds_contents", "ds_contents", "ds_select", "ds_select", "ds_item", "ds_iter", "ds_chunk", "ds_len", "ds_sort",
      "ds_slice", "ds_str", "ds_copy", "ds_tag", "ds_map", "ds_splits", "ds_eq")
FS = ("fs_item", "fs_iter", "fs_chunk", "fs_select", "fs_len", "fs_copy")
MS = ("ms_item", "ms_iter", "ms_chunk", "ms_contents", "ms_select", "ms_tag", "ms_sort")
PATCH = ("p_select", "p_filter", "p_dft", "p_units", "p_agg", "p_arith", "p_coord", "p_attrs", "p_str", "p_eq", "p_snap",
         "p_ns", "p_update", "p_resample", "p_transpose", "p_simplify", "p_roll", "p_hash")
UNIT = ("u_quant", "u_unit", "u_convert", "u_factor", "t_time")


class Ops:
    """The calls threads make; every one returns plain values."""

    def __init__(self, data, plan):
        from .. import gen
        self.gen, self.data, self.plan = gen, data, plan
        self.sh = {}
        self.kept = []

    def build(self):
        """Objects shared by the threads."""
        import dascore as dc
        gen = self.gen
        for name in self.plan["shared"]:
            if name == "ds":
                self.sh["ds"] = dc.spool(self.data)
            elif name == "dsel":
                self.sh["ds"] = dc.spool(self.data).select(time=(gen.T_BASE, None))
            elif name == "fs":
                self.sh["fs"] = dc.spool(os.path.join(self.data, "multi.h5"))
            elif name == "ms":
                self.sh["ms"] = dc.spool([gen.make_patch(dict(id=j, t=j * 1000, nt=10, dt=100, nd=3, tag="m", cunits=False))
                                          for j in range(5)])
            elif name == "p":
                self.sh["p"] = gen.make_patch(dict(id=3, t=0, nt=20, dt=100, nd=6, tag="p", extra="latlon"))

    def get(self, name):
        if name not in self.sh:
            raise core.Skip(f"no shared {name}")
        return self.sh[name]

    def dg(self, p):
        return self.gen.dkey(self.gen.digest(p))

    def rows(self, df):
        return [list(r) for r in dirs.df_rows(df)]

    def rng(self, arg):
        import numpy as np
        t0 = self.gen.T_BASE + np.timedelta64(arg * 700, "ms")
        return (t0, t0 + np.timedelta64(2500, "ms"))

    def call(self, op, arg):
        import dascore as dc
        kind, _, rest = op.partition("_")
        if kind in ("read", "scan", "format", "file", "dir"):
            return self.path_op(dc, op, arg)
        if kind in ("ds", "fs", "ms"):
            return self.spool_op(dc, self.get(kind), rest, arg)
        if kind == "p":
            return self.patch_op(dc, self.get("p"), rest, arg)
        return self.unit_op(dc, op, arg)

    def path_op(self, dc, op, arg):
        names = self.plan["files"]
        path = os.path.join(self.data, names[arg % len(names)])
        if op == "read":
            return sorted(self.dg(p) for p in dc.read(path))
        if op == "read_part":
            return sorted(self.dg(p) for p in dc.read(path, time=self.rng(arg)))
        if op == "scan":
            return [list(dirs.attrs_row(a, self.data)) for a in dc.scan(path, progress=None)]
        if op == "format":
            return list(dc.get_format(path))
        if op == "file_spool":
            return [self.dg(p) for p in dc.spool(path)] if os.path.isfile(path) else []
        if op == "scan_dir":
            return sorted(list(dirs.attrs_row(a, self.data)) for a in dc.scan(self.data, progress=None))
        sp = dc.spool(self.data)
        if op == "dir_contents":
            return self.rows(sp.get_contents())
        if op == "dir_select":
            return self.rows(sp.select(time=self.rng(arg)).get_contents())
        if op == "dir_len":
            return len(sp)
        return self.dg(sp[arg % len(sp)])

    def spool_op(self, dc, sp, op, arg):
        if op == "contents":
            return self.rows(sp.get_contents())
        if op == "select":
            sub = sp.select(time=self.rng(arg))
            return [self.rows(sub.get_contents()), [self.dg(p) for p in sub]]
        if op == "tag":
            return [self.dg(p) for p in sp.select(tag="*" + str(arg % 3) + "*")]
        if op == "item":
            return self.dg(sp[arg % len(sp)])
        if op == "iter":
            return [self.dg(p) for p in sp]
        if op == "chunk":
            return [self.dg(p) for p in sp.chunk(time=0.5 + arg % 3, conflict="drop")]
        if op == "len":
            return len(sp)
        if op == "sort":
            return [self.dg(p) for p in sp.sort("time")[:2]]
        if op == "slice":
            return [self.dg(p) for p in sp[arg % 3:arg % 3 + 2]]
        if op == "str":
            return len(str(sp)) > 0
        if op == "copy":
            return len(sp.__class__(sp))
        if op == "splits":
            return [[len(x), self.dg(x[0])] for x in sp.split(size=2)]
        if op == "eq":
            return bool(sp == sp)
        if op == "map":
            return sp.map(self.dg, progress=None)
        raise core.HarnessError(op)

    def patch_op(self, dc, p, op, arg):
        if op == "select":
            return self.dg(p.select(time=self.rng(arg % 2)))
        if op == "filter":
            return self.dg(p.pass_filter(time=(None, 1 + arg % 3)))
        if op == "dft":
            return self.dg(p.dft("time"))
        if op == "units":
            return self.dg(p.convert_units(distance="ft"))
        if op == "agg":
            return self.dg(p.aggregate("time", ("mean", "max", "std")[arg % 3]))
        if op == "arith":
            return self.dg((p * (arg + 2) + p) / 3)
        if op == "coord":
            c = p.get_coord(("time", "distance")[arg % 2])
            return [str(c.min()), str(c.max()), str(c.step), str(c.units), len(c), str(c.dtype), str(c.limits),
                    str(c.get_sample_count(2) if arg % 2 else "")]
        if op == "attrs":
            return sorted((k, str(v)) for k, v in p.attrs.flat_dump().items())
        if op == "str":
            return len(str(p)) > 10
        if op == "eq":
            return bool(p == p.new())
        if op == "snap":
            return self.dg(p.snap_coords())
        if op == "ns":
            return [type(p.io).__name__, len(p.get_registered_namespaces()) >= 0]
        if op == "update":
            return self.dg(p.update_coords(time_min="2021-01-01").update_attrs(tag=f"n{arg}"))
        if op == "resample":
            return self.dg(p.interpolate(time=p.get_array("time")[::2]))
        if op == "transpose":
            return self.dg(p.transpose())
        if op == "simplify":
            return self.dg(p.simplify_units())
        if op == "roll":
            return self.dg(p.rolling(time=0.5).mean())
        if op == "hash":
            return [str(p.coords.shape), str(sorted(p.coords.coord_map)), p.coords.size]
        raise core.HarnessError(op)

    def unit_op(self, dc, op, arg):
        from dascore.units import convert_units, get_factor_and_unit, get_quantity, get_unit
        u = ("m", "km", "ft", "m/s", "1/s", "cm**2", "10 m")[arg % 7]
        if op == "u_quant":
            q = get_quantity(u)
            self.kept.append(q)
            return str(q)
        if op == "u_unit":
            return str(get_unit(("m", "ft", "s")[arg % 3]))
        if op == "u_convert":
            return str(convert_units(10.0, "km", ("m", "ft", "cm")[arg % 3]))
        if op == "u_factor":
            return str(get_factor_and_unit(u))
        return [str(dc.to_datetime64("2020-01-01T00:00:0%d" % (arg % 9))), str(dc.to_timedelta64(arg + 0.5))]


def build(data):
    import dascore as dc
    from .. import gen
    warnings.simplefilter("ignore")
    os.makedirs(data)
    ps = [gen.make_patch(dict(id=k, t=k * 1000, nt=10, dt=100, nd=3, tag=f"a{k % 3}", station="s" * (k % 2))) for k in range(8)]
    dc.write(dc.spool(ps[:3]), os.path.join(data, "multi.h5"), "DASDAE")
    dc.write(dc.spool(ps[3:4]), os.path.join(data, "one.h5"), "DASDAE")
    dc.write(dc.spool(ps[4:6]), os.path.join(data, "two.pkl"), "PICKLE")
    dc.write(dc.spool(ps[6:7]), os.path.join(data, "three"), "DASDAE")
    seg = gen.make_patch(dict(id=9, t=7000, nt=10, dt=10, nd=3, tag="seg"))
    dc.write(seg.new(data=seg.data.astype("float32")), os.path.join(data, "four.segy"), "SEGY", "1.0")
    vendor.make("TERRA15", os.path.join(data, "t.hdf5"), 1, t=1_577_836_810)
    vendor.make("H5SIMPLE", os.path.join(data, "h.h5"), 2, t=1_577_836_815)
    vendor.make("SINTELA_BINARY", os.path.join(data, "s.raw"), 2, t=1_577_836_820)
    import numpy as np
    os.makedirs(os.path.join(data, "x"))
    with open(os.path.join(data, "x", "metadata.xml"), "w") as fh:
        fh.write(dirs._XML.format(iu="a", rate=1000, nd=3, nt=10))
    for j in range(2):
        np.arange(30, dtype="uint16").tofile(os.path.join(data, "x", f"DAS_20200101T00000{j}_000000Z.raw"))


FILES = ["multi.h5", "one.h5", "two.pkl", "three", "four.segy", "t.hdf5", "h.h5", "s.raw", "x"]


def index(data):
    import dascore as dc
    warnings.simplefilter("ignore")
    dc.spool(data).update(progress=None)


def check_kept(ops):
    """Quantities handed to different threads work together."""
    for a in ops.kept:
        for b in ops.kept:
            if a.dimensionality == b.dimensionality:
                a + b
    return True


def outcome(fn):
    try:
        return ["ok", fn()]
    except core.Skip:
        raise
    except Exception as e:  # noqa: BLE001
        if not core.from_library(e) and not isinstance(e, AssertionError):
            raise
        return ["err", type(e).__name__, core.describe(e)]


def run_serial(data, plan):
    warnings.simplefilter("ignore")
    ops = Ops(data, plan)
    ops.build()
    return [[outcome(lambda: ops.call(*c)) for c in th] for th in plan["threads"]]


def run_threads(data, plan):
    import gc
    warnings.simplefilter("ignore")
    gc.disable()
    ops = Ops(data, plan)
    ops.build()
    if plan["warm"]:
        outcome(lambda: ops.path_op(__import__("dascore"), "format", 0))
    sched = threads.Sched(plan["switches"], plan["focus"], plan["hot"])

    def body(calls):
        return lambda: [outcome(lambda: ops.call(*c)) for c in calls]

    res = sched.run([body(c) for c in plan["threads"]])
    out = []
    for st, val in res:
        if st == "err":
            raise val
        out.append(val)
    kept = outcome(lambda: check_kept(ops))
    return out, sched.log, sched.n, kept


class WORLD(World):
    prop = "C10"
    quick_runs = 320
    thorough_runs = 20000
    real = ("the library's own code in real threads of one process, HDF5, PyTables, file system",)
    stubs = ("thread scheduling (chosen at the library's statements; native code and other packages run without "
             "interruption)", "locks created by the library (known to the scheduler)", "clock", "listing order")
    rule = ("2-4 threads with 1-4 calls each on shared and private spools, patches, files and units, cold or warm plugin "
            "registry, switched at up to 60 seeded statement counts, optionally counted in chosen modules only; results "
            "are compared with the same calls made one after another in a new process.")
    assumptions = ("HDF5 and PyTables calls are atomic: their own thread safety is not examined",
                   "imports are not interrupted by other threads")

    def setup(self):
        import dascore  # noqa: F401
        d = os.path.join(core._DIRBASE, f"c10-corpus-{os.getpid()}", "data")
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        os.makedirs(os.path.dirname(d))
        core.in_process(build, d)
        core.in_process(index, d)
        self.tree = {}
        for r, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                with open(os.path.join(r, f), "rb") as fh:
                    self.tree[os.path.relpath(os.path.join(r, f), d)] = fh.read()
        shutil.rmtree(os.path.dirname(d))

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    def gen(self, rng, tier):
        cold = rng.random() < 0.4
        shared = [] if cold else ["ds"]
        if rng.random() < 0.15 and not cold:
            shared = ["dsel"]
        for n in ("fs", "ms", "p"):
            if rng.random() < (0.15 if cold else 0.5):
                shared.append(n)
        pool = [BY_PATH]
        if "ds" in shared or "dsel" in shared:
            pool += [DS, DS]
        pool += [{"fs": FS, "ms": MS, "p": PATCH}[n] for n in shared if n in ("fs", "ms", "p")]
        if rng.random() < 0.4:
            pool.append(UNIT)
        n = rng.choice([2, 2, 2, 3, 4])
        threads_ = []
        same = rng.random() < 0.5
        for k in range(n):
            if same and k and rng.random() < 0.8:
                threads_.append([list(c) for c in threads_[0]])
                continue
            calls = [[rng.choice(rng.choice(pool)), rng.randrange(12)] for _ in range(rng.randint(1, 3))]
            threads_.append(calls)
        style = rng.randrange(5)
        hot = rng.random() < 0.6
        sw = []
        for _ in range(rng.choice([1, 2, 4, 10, 30, 60])):
            gap = int(2 ** rng.uniform(0, 8 if hot else 11)) if style == 0 else rng.randint(1, 12) if style == 1 else rng.randint(1, 200)
            sw.append([gap, rng.randrange(4)])
        if style == 1:
            sw[0][0] = int(2 ** rng.uniform(0, 12))
        if style >= 3:                 # the threads advance side by side
            sw = [[int(2 ** rng.uniform(0, 6)), rng.randrange(4)]] if rng.random() < 0.5 else []
            sw += [[rng.choice([1, 1, 1, 2, 3, 7]), rng.randrange(4), 2 ** rng.randint(1, 6)] for _ in range(rng.randint(3, 16))]
        files = rng.sample(FILES, rng.randint(1, len(FILES)))
        return dict(shared=shared, threads=threads_, switches=sw, focus=rng.choice(FOCUS), hot=hot, files=files,
                    warm=not cold and rng.random() < 0.5, listing=rng.randrange(5))

    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        for rel, b in self.tree.items():
            os.makedirs(os.path.dirname(os.path.join(data, rel)), exist_ok=True)
            with open(os.path.join(data, rel), "wb") as f:
                f.write(b)
        want = core.in_process(run_serial, data, plan)
        got, log, n, kept = core.in_process(run_threads, data, plan)
        for e in log:
            ctx.log(*e)
            ctx.state(*e[1:3], [plan["threads"][k][0][0] for k in e[3:]])
        ctx.fault("switch", len(log))
        ctx.fault("blocked", sum(e[1] == "blocked" for e in log))
        ctx.probe("lines", n)
        ctx.probe("cold" if not plan["shared"] else "shared")
        for k, (g, w) in enumerate(zip(got, want)):
            for c, a, b in zip(plan["threads"][k], g, w):
                ctx.log(k, c, a[0])
                ctx.probe(c[0])
                if a[:2] != b[:2]:
                    kind = "raised" if a[0] == "err" else "differs"
                    raise Violation(kind, f"thread {k} {c}: {str(a)[:400]} but alone: {str(b)[:300]}")
        if kept[0] != "ok":
            raise Violation("raised", f"quantities of different threads cannot be combined: {kept}")

    def simplify(self, plan):
        for k in range(len(plan["threads"])):
            if len(plan["threads"]) > 2:
                yield dict(plan, threads=plan["threads"][:k] + plan["threads"][k + 1:])
            for j in range(len(plan["threads"][k])):
                if len(plan["threads"][k]) > 1:
                    t = [list(x) for x in plan["threads"]]
                    del t[k][j]
                    yield dict(plan, threads=t)
        for k, x in enumerate(plan["switches"]):
            if len(x) > 2 and x[2] > 1:
                yield dict(plan, switches=plan["switches"][:k] + [[x[0], x[1], x[2] // 2]] + plan["switches"][k + 1:])
        for s in plan["shared"]:
            yield dict(plan, shared=[x for x in plan["shared"] if x != s])
