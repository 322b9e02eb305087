"""C05: trees of spools derived by lazy operations, loaded in any order under read faults, vs. in-memory spools.

State measure: (root kind, operation chain, number of patches, fault class, outcome).
"""
import errno
import os
import pickle

import numpy as np
import pandas as pd

from .. import core, dirs, gen, shim, vendor
from ..core import Violation, World

COLS = ("tag", "station", "network", "data_type", "data_category", "instrument_id", "dims", "time_min", "time_max",
        "time_step")
VENDORS = (("TERRA15", ".hdf5"), ("H5SIMPLE", ".h5"), ("OPTODAS", ".hdf5"), ("SILIXA_H5", ".hdf5"),
           ("APSENSING", ".hdf5"), ("DASHDF5", ".hdf5"), ("SINTELA_BINARY", ".raw"))
ACTS = {"error": shim.ERR, "short": shim.SHORT}


def at(ms):
    return gen.T_BASE + np.timedelta64(int(ms * 1e6), "ns")


def rows(sp):
    df = sp.get_contents()
    cols = [c for c in COLS if c in df.columns]
    return [tuple(dirs._cell(c, r[c]) for c in cols) for r in df[cols].to_dict("records")], cols


class WORLD(World):
    prop = "C05"
    quick_runs = 450
    thorough_runs = 30000
    real = ("DirectorySpool, FileSpool and MemorySpool with all lazy operations", "DASDAE, PICKLE, SEGY, XMLBINARY and "
            "HDF5/binary vendor readers", "directory indexer, HDF5 libraries, segyio")
    stubs = ("wall clock", "read/open faults and missing files during a load (injected at system calls)")
    rule = ("Random trees of spools derived by select, sort, slice, array, split, chunk, merge and pickling from directory "
            "and file spools and, in parallel, from in-memory spools of the same patches; patches loaded by index or "
            "iteration in random order with faults in the middle; contents, lengths and patches compared.")
    assumptions = ("patches trimmed to nothing are skipped by iteration of file-backed spools (documented, #583)",
                   "overlapping patches of one file can be told apart by an attribute (see known findings)")

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # ---------------------------------------------------------- generation
    def gen(self, rng, tier):
        files, n = [], 0
        for k in range(rng.randint(1, 4)):
            r = rng.random()
            if r < 0.2:
                fmt, ext = rng.choice(VENDORS)
                files.append(dict(rel=f"v{k}{ext}", kind="VENDOR", fmt=fmt, i=k + 1, t=rng.choice([0, 2, 30]), nt=4 + k))
                continue
            kind = rng.choice(["DASDAE", "DASDAE", "DASDAE", "PICKLE", "SEGY"])
            line = rng.random() < 0.5
            cnt = 1 if kind == "SEGY" else rng.choice([1, 1, 2, 3, 4])
            specs = []
            for _ in range(cnt):
                if kind == "SEGY":
                    s = dict(id=n, t=n * 1000, nt=rng.choice([10, 60, 300, 300]), dt=rng.choice([10, 10, 30, 4, 1]), nd=3, dtype="float32")
                elif line:      # contiguous segments of one recording, over several files
                    s = dict(id=n, t=n * 1000, nt=10, dt=100, nd=3, tag="line", dtype="float64")
                    if rng.random() < 0.15:
                        s["nt"] = 8
                else:
                    s = gen.gen_spec(rng, n, tag=f"p{n}")
                n += 1
                specs.append(s)
            rel = ("sub/" if rng.random() < 0.2 else "") + f"f{k}" + {"DASDAE": ".h5", "PICKLE": ".pkl",
                                                                      "SEGY": ".segy"}[kind]
            files.append(dict(rel=rel, kind=kind, specs=specs, index=kind == "DASDAE" and rng.random() < 0.2))
        times = [(s["t"], s["dt"], s["nt"]) for f in files for s in f.get("specs", ())]
        steps, size = [], 1
        nroots = 1 + len(files)
        for _ in range(rng.randint(4, 12 if tier == "quick" else 40)):
            r = rng.random()
            target = rng.randrange(max(size - 4, 0), size) if rng.random() < 0.6 else rng.randrange(size)
            if size < 2 or r < 0.15:
                steps.append(["root", rng.randrange(nroots) if rng.random() < 0.5 else 0])
                size += 1
            elif r < 0.5:
                op = self._op(rng, times)
                if op[0] == "select_time" and times and rng.random() < 0.35:     # a few samples of one patch
                    t, dt, nt = rng.choice(times)
                    i, j = rng.randrange(nt), rng.randint(0, 5)
                    op = ["select_time", t + i * dt, t + (i + j) * dt]
                steps.append(["derive", target, op])
                if op[0] == "select_time" and rng.random() < 0.5:
                    steps.append(["iter", size, None])
                size += 1
            elif r < 0.78:
                steps.append(["load", target, rng.randrange(-3, 8), self._fault(rng, files)])
            elif r < 0.9:
                steps.append(["iter", target, self._fault(rng, files)])
            else:
                steps.append(["contents", target])
        return dict(files=files, steps=steps, listing=rng.randrange(1000))

    def _fault(self, rng, files):
        r = rng.random()
        if r < 0.45:
            return None
        if r < 0.55:
            return ["gone", rng.choice(files)["rel"]]
        cls = rng.choice(["read", "read", "read", "open"])
        if cls == "read" and rng.random() < 0.35:
            return ["read", "short", rng.randint(1, 30), rng.choice([1, 3, 50]), rng.randrange(1, 200)]
        top = 6 if cls == "open" else rng.choice([6, 60])
        return [cls, "error", rng.randint(1, top), rng.choice([1, 1, 2, 100000]),
                rng.choice([errno.EIO, errno.EIO, errno.EACCES, errno.ENOENT] if cls == "open" else [errno.EIO])]

    def _op(self, rng, times):
        k = rng.choice(["select_time", "select_time", "select_dist", "select_attr", "sort", "slice", "array", "bools",
                        "split", "chunk", "chunk", "merge", "pickle", "select_time"])
        def sample():       # where a sample of a listed patch lies
            s = rng.choice(times or [(0, 100, 10)])
            return s[0] + s[1] * rng.randrange(s[2])
        t = lambda: rng.choice([None, rng.randrange(-1000, 12000), rng.randrange(0, 12) * 1000,
                                 sample(), sample()])
        if k == "select_time":
            a, b = t(), t()
            if a is not None and b is not None and a > b:
                a, b = b, a
            return [k, a, b]
        if k == "select_dist":
            a = rng.choice([None, 0.0, 0.5, 1.0])
            return [k, a, rng.choice([None, 1.0, 1.5, 3.0])]
        if k == "select_attr":
            return [k, rng.choice(["tag", "station", "network"]), rng.choice(["line", "p*", "p1", "sta", "st?", "", "net"])]
        if k == "sort":
            return [k, rng.choice(["time", "tag", "station", "time_max"])]
        if k == "slice":
            return [k, rng.choice([None, 0, 1, -2]), rng.choice([None, 1, 2, 4, -1]), rng.choice([None, None, 2, -1])]
        if k == "array":
            return [k, [rng.randrange(0, 6) for _ in range(rng.randint(1, 4))]]
        if k == "bools":
            return [k, rng.randrange(1, 1 << 16)]
        if k == "split":
            return [k, rng.choice(["size", "count"]), rng.randint(1, 3), rng.randrange(3)]
        if k == "chunk":
            return [k, rng.choice([0.25, 0.5, 1.0, 1.5, 3.0]), rng.choice([0, 0, 0.1, 0.2]), rng.random() < 0.5,
                    rng.choice(["raise", "drop", "keep_first"])]
        if k == "merge":
            return [k, rng.choice(["raise", "drop", "keep_first"])]
        return [k]

    # ---------------------------------------------------------- building
    def build(self, ctx, plan):
        import dascore as dc
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        ref = {}
        for f in plan["files"]:
            path = os.path.join(data, f["rel"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if f["kind"] == "VENDOR":
                vendor.make(f["fmt"], path, f["i"], t=1_577_836_800 + f["t"], nt=f["nt"])
                ref[f["rel"]] = list(dc.read(path))
                continue
            ps = [gen.make_patch(s) for s in f["specs"]]
            kw = {"index": True} if f.get("index") else {}
            dc.write(dc.spool(ps), path, f["kind"], {"SEGY": "1.0"}.get(f["kind"]), **kw)
            if f["kind"] == "SEGY":
                ps = list(dc.read(path))
            ref[f["rel"]] = ps
        return data, ref

    def pair(self, contents, ref, rel_of):
        """In-memory patches in the order of a contents table."""
        out, used = [], set()
        for r in contents.to_dict("records"):
            cands = ref[rel_of(r.get("path"))]
            hits = [p for p in cands if len(cands) == 1 or
                    (p.attrs.tag == r["tag"] and np.datetime64(r["time_min"]) == p.get_coord("time").min()
                     and np.datetime64(r["time_max"]) == p.get_coord("time").max())]
            if len(hits) != 1:
                raise Violation("listed-patch-unknown", f"{len(hits)} patches match row {r['tag']} {r['time_min']}")
            if id(hits[0]) in used:
                raise Violation("listed-twice", f"{r["tag"]}")
            used.add(id(hits[0]))
            out.append(hits[0])
        return out

    def root_pair(self, data, plan, ref, which):
        import dascore as dc
        if which == 0:
            sp = dc.spool(data).update(progress=None)
            con = sp.get_contents()
            pats = self.pair(con, ref, lambda p: str(p).lstrip("/"))
            want = sum(len(v) for v in ref.values())
        else:
            rel = plan["files"][which - 1]["rel"]
            sp = dc.spool(os.path.join(data, rel))
            pats = self.pair(sp.get_contents(), ref, lambda p: rel)
            want = len(ref[rel])
        if len(pats) != want:
            raise Violation("contents-incomplete", f"{len(pats)} of {want} patches listed")
        return sp, dc.spool(pats)

    # ---------------------------------------------------------- execution
    def known_plan(self, kind, match):
        seg = dict(dt=100, nd=3, tag="line", dtype="float64")
        return dict(files=[dict(rel="f0.h5", kind="DASDAE", index=False,
                                specs=[dict(seg, id=1, t=0, nt=20), dict(seg, id=2, t=1000, nt=20)])],
                    steps=[["derive", 0, ["select_time", 1200, 1500]], ["load", 1, 0, None], ["load", 1, 1, None]],
                    listing=0, finding=True, seed=5)

    def execute(self, plan, ctx):
        if plan.get("finding"):
            try:
                self._execute(plan, ctx)
            except Violation as v:
                raise Violation(v.kind, "overlapping patches of one file: " + v.detail) from None
        else:
            self._execute(plan, ctx)

    def _execute(self, plan, ctx):
        self.plan = plan
        self.data, self.ref = self.build(ctx, plan)
        shim.root(self.data)
        pool = [self.root_pair(self.data, plan, self.ref, 0) + (("root",), False, False)]
        for st in plan["steps"]:
            k = st[0]
            ctx.probe(k)
            if k == "root":
                a, b = self.root_pair(self.data, plan, self.ref, st[1] if st[1] <= len(plan["files"]) else 0)
                pool.append((a, b, ("dir" if st[1] == 0 else "file",), False, False))
                self.compare(ctx, pool[-1])
                continue
            node = pool[st[1] % len(pool)]
            if k == "derive":
                self.derive(ctx, pool, node, st[2])
            elif k == "contents":
                self.compare(ctx, node)
            elif k == "load":
                self.load(ctx, node, st[2], st[3])
            elif k == "iter":
                self.iterate(ctx, node, st[2])

    def apply(self, sp, op):
        k = op[0]
        if k == "select_time":
            a, b = (None if x is None else at(x) for x in op[1:])
            return sp.select(time=(a, b))
        if k == "select_dist":
            return sp.select(distance=(op[1], op[2]))
        if k == "select_attr":
            return sp.select(**{op[1]: op[2]})
        if k == "sort":
            return sp.sort(op[1])
        if k == "slice":
            return sp[slice(*op[1:])]
        if k == "array":
            return sp[np.array([x % len(sp) for x in op[1]])] if len(sp) else sp
        if k == "bools":
            return sp[np.array([bool(op[1] >> i & 1) for i in range(len(sp))], bool)]
        if k == "split":
            parts = list(sp.split(**{op[1]: op[2]}))
            return parts[op[3] % len(parts)] if parts else sp
        if k == "chunk":
            kw = {"overlap": op[2]} if op[2] else {}
            return sp.chunk(time=op[1], keep_partial=op[3], conflict=op[4], **kw)
        if k == "merge":
            return sp.chunk(time=None, conflict=op[1])
        if k == "pickle":
            return pickle.loads(pickle.dumps(sp))
        raise core.HarnessError(k)

    def attempt(self, fn):
        try:
            return "ok", fn()
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            if not core.from_library(e) and not isinstance(e, (KeyError, IndexError, ValueError, OSError)):
                raise
            return "error", (type(e).__name__, core.describe(e))

    def derive(self, ctx, pool, node, op):
        a, b, chain, loose, dist = node
        if op[0] == "select_dist" and any(f["kind"] == "SEGY" or f.get("fmt") in ("SINTELA_BINARY", "DASHDF5")
                                          for f in self.plan["files"]):
            return          # patches with channels instead of distances
        if loose and op[0] not in ("select_time", "select_dist", "select_attr", "pickle"):
            return          # positions differ once patches are trimmed to nothing
        sa, na = self.attempt(lambda: self.apply(a, op))
        sb, nb = self.attempt(lambda: self.apply(b, op))
        ctx.log("derive", chain, op, sa, sb)
        if sb == "error":
            return          # what the in-memory spool refuses is not compared
        if sa != sb:
            raise Violation("operation-differs", f"{chain} {op}: file spool {sa} {na}, memory spool {sb} {nb}")
        loose = loose or op[0] == "select_dist"
        new = (na, nb, chain + (op[0],), loose, dist)
        pool.append(new)
        self.compare(ctx, new)

    def compare(self, ctx, node):
        a, b, chain, loose, _ = node
        if loose:
            return
        ra, ca = rows(a)
        rb, cb = rows(b)
        ctx.log("contents", chain, ra)
        if len(a) != len(b) or len(ra) != len(rb):
            raise Violation("length-differs", f"{chain}: file spool {len(a)}/{len(ra)}, memory spool {len(b)}/{len(rb)}")
        common = [c for c in ca if c in cb]
        pick = lambda rs, cs: [tuple(r[cs.index(c)] for c in common) for r in rs]
        xa, xb = pick(ra, ca), pick(rb, cb)
        for i, (x, y) in enumerate(zip(xa, xb)):
            if x != y:
                raise Violation("contents-differ", f"{chain} row {i}: {[(c, u, v) for c, u, v in zip(common, x, y) if u != v]}")

    def arm(self, ctx, fault):
        shim.reset()
        shim.clear()
        if fault is None:
            return lambda: None
        if fault[0] == "gone":
            p = os.path.join(self.data, fault[1])
            hidden = os.path.join(os.path.dirname(self.data), "hidden")
            if os.path.exists(p):
                os.rename(p, hidden)

            def back():
                if os.path.exists(hidden):
                    os.rename(hidden, p)
            self.fired = lambda: True
            return back
        cls, act, nth, cnt, arg = fault
        shim.rule({"read": shim.READ, "open": shim.OPEN}[cls], ACTS[act], nth=nth, n=cnt, arg=arg)
        return shim.clear

    def _digest(self, p, dist=False):
        return gen.digest(p)

    def want(self, node, i):
        s, v = self.attempt(lambda: node[1][i])
        if s == "ok":
            if 0 in v.shape:
                return "empty", None
            v = gen.digest(v)
        elif v[0] == "CoordError" and "UnCoord" in v[1]:
            return "empty", None        # selecting again in what was trimmed to nothing
        return s, v

    def check(self, ctx, node, i, got, wanted, what):
        s, v = got
        if wanted[0] == "empty":
            ok = s == "error" and v[0] == "MissingPatchError" or s == "ok" and 0 in v["shape"]
        elif wanted[0] == "error":
            ok = s == "error"
        else:
            ok = s == "ok" and v == wanted[1]
        if not ok:
            raise Violation("patch-differs", f"{node[2]}[{i}] {what}: " + (
                gen.diff(wanted[1], v) if s == "ok" and wanted[0] == "ok" else f"got {s} {v}, want {wanted}"))

    def load(self, ctx, node, i, fault):
        a, b, chain, loose, _ = node
        n = len(a)
        if loose or not n:
            return self.iterate(ctx, node, fault)
        i = i % n if i >= 0 else -((-i - 1) % n) - 1
        wanted = self.want(node, i)
        end = self.arm(ctx, fault)
        try:
            s, v = self.attempt(lambda: gen.digest(a[i]))
            fired = fault and (fault[0] == "gone" or shim.fired(0))
        finally:
            end()
        ctx.log("load", chain, i, fault, s)
        if fired:
            ctx.fault(f"{fault[0]}-{fault[1]}" if fault[0] != "gone" else "gone")
            ctx.state(chain[-3:], fault[0], s, min(n, 4))
            if not (s == "error"):
                self.check(ctx, node, i, (s, v), wanted, f"with fault {fault}")
            elif fault[1] == "short":
                self.check(ctx, node, i, (s, v), wanted, "with short reads")
        else:
            ctx.state(chain[-3:], "-", s, min(n, 4))
        if not fired or s == "error":
            self.check(ctx, node, i, self.attempt(lambda: gen.digest(a[i])), wanted, "after a fault" if fired else "")

    def iterate(self, ctx, node, fault):
        a, b, chain, loose, _ = node
        wanted = []
        s, v = "ok", None
        for i in range(len(b)):
            w = self.want(node, i)
            if w[0] == "error":
                if w[1][0] == "MissingPatchError":
                    continue
                s, v = w
                break
            if w[0] == "ok":
                wanted.append(w[1])
        end = self.arm(ctx, fault)
        # (digests are computed outside the faults)
        try:
            gs, got = self.attempt(lambda: list(a))
            fired = fault and (fault[0] == "gone" or shim.fired(0))
        finally:
            end()
        ctx.log("iter", chain, fault, gs)
        if fired:
            ctx.fault(f"{fault[0]}-{fault[1]}" if fault[0] != "gone" else "gone")
            ctx.state(chain[-3:], "iter", fault[0], gs)
        if fired and gs == "error" and fault[1] != "short":
            gs, got = self.attempt(lambda: list(a))
        if s == "error":
            if gs != "error":
                raise Violation("iteration-differs", f"{chain}: memory spool raises {v}, file spool {gs} {got}")
            return
        if gs == "error":
            raise Violation("iteration-differs", f"{chain}: file spool raises {got}")
        got = [gen.digest(p) for p in got if 0 not in p.shape]
        if got != wanted:
            d = next((gen.diff(x, y) for x, y in zip(wanted, got) if x != y), "")
            raise Violation("iteration-differs", f"{chain} fault {fault if fired else None}: {len(got)} patches, "
                            f"want {len(wanted)}; {d}")

    def simplify(self, plan):
        for i, f in enumerate(plan["files"]):
            if len(plan["files"]) > 1:
                yield dict(plan, files=plan["files"][:i] + plan["files"][i + 1:])
            if len(f.get("specs", ())) > 1:
                for j in range(len(f["specs"])):
                    g = dict(f, specs=f["specs"][:j] + f["specs"][j + 1:])
                    yield dict(plan, files=plan["files"][:i] + [g] + plan["files"][i + 1:])
        for i, st in enumerate(plan["steps"]):
            if st[0] in ("load", "iter") and st[-1]:
                yield dict(plan, steps=plan["steps"][:i] + [st[:-1] + [None]] + plan["steps"][i + 1:])
