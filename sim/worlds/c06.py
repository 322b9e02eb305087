"""C06: histories of writes, appends, rewrites, in-file indexing and restarts vs. a model of each file.

State measure: per file (format, number of patches, in-file index), number of processes so far.
"""
import os

import numpy as np

from .. import core, dirs, gen, shim
from ..core import Proc, Violation, World

ROW = ("tag", "station", "network", "time_min", "time_max", "time_step", "dims", "data_type", "data_category",
       "instrument_id")


def row_of(attrs):
    d = attrs.flat_dump()
    return tuple(dirs._cell(c, d.get(c)) for c in ROW)


def as_index(r):
    """Times given as numbers are listed as dates by an in-file index."""
    def conv(c, v):
        if v.startswith("td:"):
            return str(np.datetime64(int(v[3:]), "ns"))
        if not v.startswith("float:"):
            return v
        x = float(v[6:])
        if x != x:
            return ""
        ns = int(round(x * 1e9))
        return str(ns) if c == "time_step" else str(np.datetime64(ns, "ns"))
    return tuple(conv(c, v) for c, v in zip(ROW, r))


class Agent:
    def __init__(self, root):
        self.root = root

    def p(self, rel):
        return os.path.join(self.root, rel)

    def _source(self, specs, kind, srcname):
        """The thing to write: a patch, a list, a spool in memory, a file spool, a directory spool."""
        import dascore as dc
        patches = [gen.make_patch(s) for s in specs]
        if kind == "patch":
            return patches[0]
        if kind == "memory":
            return dc.spool(patches)
        if kind == "file":
            f = self.p(srcname)
            if os.path.exists(f):
                os.remove(f)
            dc.write(dc.spool(patches), f, "dasdae")
            return dc.spool(f)
        raise core.HarnessError(kind)

    def write(self, rel, fmt, version, specs, kind, via, index):
        import dascore as dc
        obj = self._source(specs, kind, "src.h5")
        kw = {"index": True} if index else {}
        path = self.p(rel)
        if via == "path":
            from pathlib import Path
            dc.write(obj, Path(path), fmt, version, **kw)
        elif via == "str":
            dc.write(obj, path, fmt, version, **kw)
        elif via == "method":
            obj.io.write(path, fmt, **kw)
        elif via == "fiberio":
            fio = dc.io.FiberIO.manager.get_fiberio(format=fmt, version=version)
            sp = obj if isinstance(obj, dc.BaseSpool) else dc.spool([obj])
            fio.write(sp, path, **kw)
        elif via == "handle":
            if fmt == "PICKLE":
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    dc.write(obj, f, fmt, version)
            else:
                import tables
                os.makedirs(os.path.dirname(path), exist_ok=True)
                h = tables.open_file(path, "a")
                try:
                    dc.write(obj, h, fmt, version, **kw)
                finally:
                    if h.isopen:
                        h.close()
        else:
            raise core.HarnessError(via)
        return True

    def index(self, rel):
        import dascore as dc
        dc.spool(self.p(rel)).update()
        return True

    def look(self, rel, how, fmt):
        """Everything a reader sees of a file: (format, patch digests, rows)."""
        import dascore as dc
        path = self.p(rel)
        gf = dc.get_format(path)
        if how == "read":
            got = list(dc.read(path))
        elif how == "read_hint":
            got = list(dc.read(path, fmt))
        elif how == "read_full":
            got = list(dc.read(path, *gf))
        elif how == "spool":
            sp = dc.spool(path)
            got = [sp[i] for i in range(len(sp))]
        elif how == "iter":
            got = list(dc.spool(path))
        elif how == "scan":
            got = None
        else:
            raise core.HarnessError(how)
        rows = sorted(row_of(a) for a in dc.scan(path, progress=None))
        df = dc.scan_to_df(path, progress=None)
        paths = sorted({str(x) for x in df["path"]}) if len(df) else []
        return gf, None if got is None else [gen.digest(p) for p in got], rows, len(df), paths

    def select(self, rel, tag):
        import dascore as dc
        return [gen.digest(p) for p in dc.read(self.p(rel), tag=tag)]


class WORLD(World):
    prop = "C06"
    quick_runs = 210
    thorough_runs = 20000
    real = ("DASDAE, PICKLE and SEGY writers, readers and scanners", "in-file DASDAE index", "HDF5/PyTables/h5py",
            "format detection", "file spools")
    stubs = ("wall clock", "process restarts (forked processes)")
    rule = ("Random histories of write (patch, spool in memory, file spool; by path, string, patch method, FiberIO "
            "object or open handle; with or without in-file index), append, rewrite of stored patches, indexing, "
            "deletion, renaming, restart and reading back by several routes.")
    assumptions = ("one write does not mix patches whose times are dates with others whose times are numbers",
                   "patches use dtypes and coordinates the format supports",
                   "patches with the same network, station, tag and time range (to the second) denote the same stored "
                   "patch across writes, as documented by the naming scheme of the format")

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # ---------------------------------------------------------- generation
    def gen(self, rng, tier):
        pool = []
        for i in range(rng.randint(3, 8)):
            r = rng.random()
            if r < 0.35:
                s = dict(id=i, special=rng.choice(gen.SPECIALS), tag=rng.choice(["", "a", f"p{i}"]),
                         t=rng.randrange(3) * 60000)
            else:
                s = gen.gen_spec(rng, i, tag=rng.choice(["", "a", "b", f"p{i}"]))
                if rng.random() < 0.1:
                    s["dtype"] = rng.choice(["complex128", "uint8", "int64"])
                if rng.random() < 0.5:
                    s["t"] = rng.choice([0, 0, 10000, 500])
            pool.append(s)
        # the same identity with other content
        for i in range(rng.randint(0, 3)):
            b = dict(rng.choice(pool))
            b["id"] = 100 + i
            b.setdefault("tag", "x")
            pool.append(b)
            if rng.random() < 0.5:
                b["extra"] = rng.choice(["quality", "latlon", "face", None])
        files = []
        for j in range(rng.randint(1, 3)):
            fmt = rng.choice(["DASDAE", "DASDAE", "DASDAE", "PICKLE", "SEGY"])
            ext = rng.choice({"DASDAE": [".h5", ".hdf5", "", ".dat"], "PICKLE": [".pkl", ".pickle", ""],
                              "SEGY": [".segy", ".sgy"]}[fmt])
            files.append([f"{rng.choice(['', '', 'sub/'])}f{j}{ext}", fmt])
        steps = []
        for _ in range(rng.randint(2, 10 if tier == "quick" else 25)):
            f = rng.randrange(len(files))
            r = rng.random()
            if r < 0.55:
                fmt = files[f][1]
                if fmt == "SEGY":
                    spec = dict(id=rng.randrange(50), t=rng.randrange(20) * 1000, nt=rng.choice([4, 8, 11]),
                                dt=rng.choice([1, 10]), nd=rng.choice([1, 2, 5]), dtype="float32")
                    steps.append(["write", f, [spec], "patch", rng.choice(["path", "str", "method"]), False])
                    continue
                n = rng.choice([1, 1, 2, 3])
                specs = [rng.choice(pool) for _ in range(n)]
                if any(s.get("special") in ("floattime", "timedelta") for s in specs):
                    specs = specs[:1]     # names depend on the kind of time, see assumptions
                n = len(specs)
                kind = rng.choice(["patch", "memory", "memory", "file"]) if n == 1 else \
                    rng.choice(["memory", "memory", "file"])
                if kind == "file" and not self.spool_ok(specs):
                    kind = "memory"
                via = rng.choice(["path", "str", "fiberio", "handle"] + (["method"] if kind == "patch" else []))
                steps.append(["write", f, specs, kind, via, fmt == "DASDAE" and rng.random() < 0.25])
            elif r < 0.63:
                steps.append(["index", f])
            elif r < 0.70:
                steps.append(["delete", f])
            elif r < 0.76:
                steps.append(["move", f, rng.randrange(len(files))])
            elif r < 0.86:
                steps.append(["restart"])
            else:
                steps.append(["wait", rng.choice([0.001, 1, 1000])])
            if rng.random() < 0.6:
                steps.append(["look", f, rng.choice(["read", "read_hint", "read_full", "spool", "iter", "scan"])])
        return dict(files=files, steps=steps)

    # ---------------------------------------------------------- execution
    def names(self, fmt, specs):
        """(key, spec) per patch: which stored patch it is."""
        out, seen = [], {}
        for s in specs:
            p = gen.make_patch(s)
            a = p.attrs
            d = a.flat_dump()

            def sec(x):
                try:
                    v = np.datetime64(x, "s")
                    return "" if np.isnat(v) else str(v)
                except (ValueError, TypeError):
                    return str(x)
            k = (d["network"], d["station"], d["tag"], sec(d.get("time_min")), sec(d.get("time_max")))
            n = seen.get(k, 0)
            seen[k] = n + 1
            out.append((k + (n,), s))
        return out

    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        shim.root(data)
        files = [list(x) for x in plan["files"]]
        model = {}                 # rel -> {"fmt", "patches": {key: spec}}
        nproc = 1
        p = Proc(Agent(data))
        try:
            for st in plan["steps"]:
                shim.advance(1.0)
                op = st[0]
                if op == "wait":
                    shim.advance(st[1])
                    continue
                if op == "restart":
                    p.kill()
                    p = Proc(Agent(data))
                    nproc += 1
                    ctx.log("restart")
                    continue
                rel, fmt = files[st[1] % len(files)]
                if op == "write":
                    specs = st[2]
                    version = {"SEGY": "1.0"}.get(fmt)
                    os.makedirs(os.path.dirname(os.path.join(data, rel)), exist_ok=True)
                    p.call("write", rel, fmt, version, specs, st[3], st[4], st[5])
                    m = model.get(rel)
                    ctx.probe(f"write-{fmt}-{st[3]}-{st[4]}" + ("-index" if st[5] else ""))
                    if fmt == "DASDAE" and m is not None:
                        before = len(m["patches"])
                        m["patches"].update(self.names(fmt, specs))
                        ctx.probe("append" if len(m["patches"]) > before else "rewrite")
                    else:
                        m = model[rel] = {"fmt": fmt, "patches": dict(self.names(fmt, specs)), "index": False}
                    m["index"] = m["index"] or st[5]
                    ctx.log("write", rel, [s["id"] for s in specs], st[3:])
                    self.look(p, ctx, rel, model[rel], "scan")
                elif op == "index":
                    if rel in model:
                        p.call("index", rel)
                        model[rel]["index"] = model[rel]["fmt"] == "DASDAE"
                        ctx.log("index", rel)
                elif op == "delete":
                    if rel in model:
                        os.remove(os.path.join(data, rel))
                        del model[rel]
                        ctx.log("delete", rel)
                elif op == "move":
                    rel2, fmt2 = files[st[2] % len(files)]
                    if rel in model and rel2 != rel and fmt2 == fmt:
                        os.makedirs(os.path.dirname(os.path.join(data, rel2)) or data, exist_ok=True)
                        os.rename(os.path.join(data, rel), os.path.join(data, rel2))
                        model[rel2] = model.pop(rel)
                        ctx.log("move", rel, rel2)
                        self.look(p, ctx, rel2, model[rel2], "read")
                elif op == "look":
                    if rel in model:
                        self.look(p, ctx, rel, model[rel], st[2])
                ctx.state([(m["fmt"], len(m["patches"]), m["index"]) for m in model.values()], nproc)
            for rel, m in sorted(model.items()):
                self.look(p, ctx, rel, m, "read")
            p.kill()
            p = Proc(Agent(data))
            for rel, m in sorted(model.items()):
                for how in ("read", "spool"):
                    self.look(p, ctx, rel, m, how, plan.get("finding"))
        finally:
            p.kill()

    def look(self, p, ctx, rel, m, how, finding=False):
        fmt = m["fmt"]
        specs = list(m["patches"].values())
        if how in ("spool", "iter") and fmt == "DASDAE" and (
                len(m["patches"]) > 1 and not self.spool_ok(specs)
                or m["index"] and not finding and any(s.get("special") in ("floattime", "timedelta") for s in specs)):
            how = "read"
        gf, digs, rows, ndf, paths = p.call("look", rel, how, fmt)
        ctx.log("look", rel, how, gf, None if digs is None else len(digs), len(rows))
        ctx.probe(f"look-{how}" + ("-indexed" if m["index"] else ""))
        if gf[0].upper() != fmt:
            raise Violation("format", f"{rel} written as {fmt} detected as {gf}")
        want_p = [gen.make_patch(s) for s in specs]
        if fmt == "SEGY":
            return self.look_segy(rel, want_p, digs, rows)
        want = sorted((gen.digest(x) for x in want_p), key=gen.dkey)
        if digs is not None:
            got = sorted(digs, key=gen.dkey)
            if got != want:
                msg = f"{rel} by {how}: {len(got)} patches, {len(want)} stored"
                if len(got) == len(want):
                    for g, w in zip(got, want):
                        if g != w:
                            msg += "; stored vs read " + gen.diff(w, g)
                            break
                raise Violation("read-back", msg)
        wrows = sorted(row_of(x.attrs) for x in want_p)
        if m["index"]:
            wrows, rows = sorted(map(as_index, wrows)), sorted(map(as_index, rows))
        if rows != wrows:
            raise Violation("scan", f"{rel}: scan {[r for r in rows if r not in wrows][:2]} of {len(rows)}, "
                            f"stored {[r for r in wrows if r not in rows][:2]} of {len(wrows)}")
        if ndf != len(wrows):
            raise Violation("scan", f"{rel}: scan_to_df {ndf} rows, {len(wrows)} patches stored")
        if fmt == "DASDAE" and paths != [os.path.join(p_root(ctx), rel)]:
            raise Violation("scan", f"paths {paths} for {rel}")

    def spool_ok(self, specs):
        """Rows of a multi-patch file are told apart by tag; only then is indexing unambiguous."""
        keys = set()
        for s in specs:
            a = gen.make_patch(s).attrs.flat_dump()
            keys.add(tuple(str(a.get(k)) for k in ("tag", "station", "network", "time_min", "time_max",
                                                   "distance_min", "distance_max")))
        return len(keys) == len(specs)

    def look_segy(self, rel, want_p, digs, rows):
        w = want_p[0].transpose("time", "distance")
        if len(rows) != 1:
            raise Violation("scan", f"{rel}: {len(rows)} rows")
        t = [dirs._cell(c, w.attrs.flat_dump()[c]) for c in ("time_min", "time_max", "time_step")]
        if list(rows[0][3:6]) != t:
            raise Violation("scan", f"{rel}: {rows[0]} for {t}")
        if digs is None:
            return
        if len(digs) != 1:
            raise Violation("read-back", f"{rel}: {len(digs)} patches")
        d = digs[0]
        if d["data"] != gen.arr_digest(w.data) or d["coords"]["time"][1] != gen.arr_digest(w.get_array("time")):
            raise Violation("read-back", f"{rel}: {d} for {gen.digest(w)}")

    def known_plan(self, kind, match):
        return dict(files=[["f0.h5", "DASDAE"]], finding=True, seed=77,
                    steps=[["write", 0, [dict(id=1, special="floattime", tag="a", t=0)], "memory", "path", True]])

    def simplify(self, plan):
        for i, st in enumerate(plan["steps"]):
            if st[0] == "write" and len(st[2]) > 1:
                for k in range(len(st[2])):
                    c = list(plan["steps"])
                    c[i] = [st[0], st[1], st[2][:k] + st[2][k + 1:]] + st[3:]
                    yield dict(plan, steps=c)
            if st[0] == "write" and (st[3], st[4]) != ("memory", "path"):
                c = list(plan["steps"])
                c[i] = [st[0], st[1], st[2], "memory", "path", st[5]]
                yield dict(plan, steps=c)


def p_root(ctx):
    return os.path.join(ctx.root, "data")
