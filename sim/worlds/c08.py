"""C08: operations on good, damaged and failing files; every descriptor must be closed when each one ends.

State measure: (operation, format, damage, fault class and bucket, outcome).
"""
import errno
import os

import numpy as np

from .. import core, dirs, gen, shim, vendor
from ..core import Proc, Violation, World

CLS = {"read": shim.READ, "open": shim.OPEN, "openw": shim.OPENW, "write": shim.WRITE, "truncate": shim.TRUNC,
       "stat": shim.STAT, "rename": shim.RENAME}
KINDS = ("DASDAE", "DASDAE", "DASDAEI", "PICKLE", "SEGY", "XMLBINARY") + tuple(vendor.FORMATS)
FILE_OPS = ("read", "read_fmt", "read_time", "scan", "scan_df", "get_format", "spool", "spool_load", "spool_iter",
            "spool_chunk", "spool_part")
DIR_OPS = ("dir_update", "dir_contents", "dir_load", "dir_iter", "dir_chunk", "dir_scan", "dir_select")
WRITES = ("DASDAE", "DASDAEI", "PICKLE", "SEGY", "RSF", "WAV", "append", "index")


class Agent:
    def __init__(self, root):
        self.root = root
        self.kept = []
        self.watched = False

    def op(self, name, rel, gf, rules, arg):
        """Run an operation; returns (outcome, fired, open descriptors, open handles)."""
        import gc
        gc.disable()      # descriptors must not depend on the garbage collector's timing
        self.watch_close()
        shim.reset()
        shim.clear()
        for cls, act, nth, cnt, a in rules:
            shim.rule(CLS[cls], {"error": shim.ERR, "short": shim.SHORT}[act], nth=nth, n=cnt, arg=a)
        try:
            try:
                self.run(name, os.path.join(self.root, rel), gf, arg)
                out = "ok"
            except Exception as e:  # noqa: BLE001
                if not core.from_library(e):
                    raise
                out = type(e).__name__
                del e
        finally:
            fired = [shim.fired(i) for i in range(len(rules))]
            shim.clear()
        fds = [os.path.relpath(x, self.root) for x in shim.open_fds()]
        from tables.file import _open_files
        import h5py
        handles = [str(x.filename) for x in _open_files.handlers]
        n5 = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
        return out, fired, fds, handles, n5, self.bad_close

    def watch_close(self):
        """Note when the HDF5 library itself fails to close a file it was told to close."""
        import h5py
        import tables
        if not self.watched:
            self.watched = True
            for cls in (tables.File, h5py.File):
                def close(self_, *a, _real=cls.close, **k):
                    try:
                        return _real(self_, *a, **k)
                    except Exception as e:
                        self.bad_close.append(repr(e)[:100])
                        raise
                cls.close = close
        self.bad_close = []

    def run(self, name, path, gf, arg):
        import dascore as dc
        if name == "read":
            self.kept.append(dc.read(path))
        elif name == "read_fmt":
            self.kept.append(dc.read(path, *(gf or ())))
        elif name == "read_time":
            t0 = gen.T_BASE + np.timedelta64(arg, "ms")
            self.kept.append(dc.read(path, time=(t0, t0 + np.timedelta64(2, "s"))))
        elif name == "scan":
            self.kept.append(dc.scan(path, progress=None))
        elif name == "scan_df":
            self.kept.append(dc.scan_to_df(path, progress=None))
        elif name == "get_format":
            dc.get_format(path)
        elif name == "spool":
            self.kept.append(dc.spool(path))
        elif name == "spool_load":
            sp = dc.spool(path)
            self.kept.append(sp[arg % max(len(sp), 1)])
        elif name == "spool_iter":
            self.kept.append(list(dc.spool(path)))
        elif name == "spool_part":
            it = iter(dc.spool(path))
            self.kept.append(next(it, None))
            del it
        elif name == "spool_chunk":
            self.kept.append(list(dc.spool(path).chunk(time=0.5, conflict="drop")))
        elif name == "dir_update":
            self.kept.append(dc.spool(self.root).update(progress=None))
        elif name == "dir_contents":
            self.kept.append(dc.spool(self.root).get_contents())
        elif name == "dir_select":
            t0 = gen.T_BASE + np.timedelta64(arg, "ms")
            self.kept.append(dc.spool(self.root).select(time=(t0, t0 + np.timedelta64(2, "s"))).get_contents())
        elif name == "dir_load":
            sp = dc.spool(self.root)
            self.kept.append(sp[arg % max(len(sp), 1)])
        elif name == "dir_iter":
            self.kept.append(list(dc.spool(self.root)))
        elif name == "dir_chunk":
            self.kept.append(list(dc.spool(self.root).chunk(time=0.5, conflict="drop")))
        elif name == "dir_scan":
            self.kept.append(dc.scan(self.root, progress=None))
        elif name.startswith("write_"):
            kind = name[6:]
            ps = [gen.make_patch(dict(id=500 + arg + j, t=j * 1000, nt=10, dt=10, nd=3, dtype="float32",
                                      tag=f"w{arg}_{j}")) for j in range(1 if kind in ("SEGY", "RSF", "WAV") else 2)]
            if kind == "append":
                dc.write(dc.spool(ps), path, "DASDAE")
            elif kind == "index":
                dc.spool(path).update()
            elif kind == "bad":
                dc.write(ps[0].new(data=np.zeros(ps[0].shape, object)), path, arg and "DASDAE" or "SEGY")
            else:
                kw = {"index": True} if kind == "DASDAEI" else {}
                dc.write(dc.spool(ps), path, kind.replace("EI", "E"), {"SEGY": "1.0"}.get(kind), **kw)
        else:
            raise core.HarnessError(name)


class WORLD(World):
    prop = "C08"
    quick_runs = 450
    thorough_runs = 30000
    real = ("read, scan, format detection, write, spool access and index update of all formats", "h5py, PyTables, "
            "segyio, Python file I/O, descriptor table of the process")
    stubs = ("wall clock", "I/O errors (injected at system calls)", "cyclic garbage collection switched off")
    rule = ("Random operations on good and damaged files of fourteen formats with an error or short read or write at the "
            "n-th system call; after each one the process's descriptor table, the PyTables and the h5py file "
            "registries are compared with the state before, keeping every result alive.")
    assumptions = ("errors of close() itself and write errors that make the HDF5 library unable to close a file are "
                   "outside the library's control",)

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    def gen(self, rng, tier):
        files = []
        for k in range(rng.randint(1, 4)):
            kind = rng.choice(KINDS)
            dmg = None
            if rng.random() < 0.35:
                dmg = rng.choice([["cut", rng.random()], ["cut", rng.random() ** 4], ["junk", rng.random(), rng.randint(1, 400)],
                                  ["junk", rng.random() ** 3, rng.randint(1, 40)], ["empty"]])
                if dmg[0] == "junk" and kind not in ("PICKLE", "SEGY", "XMLBINARY", "SINTELA_BINARY", "FEBUS_G1_CSV"):
                    dmg = ["cut", dmg[1]]     # junk in HDF5 metadata crashes the HDF5 library itself
            files.append([kind, k, rng.randint(1, 3), dmg])
        steps = []
        for _ in range(rng.randint(3, 10 if tier == "quick" else 30)):
            r = rng.random()
            if r < 0.5:
                op, f = rng.choice(FILE_OPS), rng.randrange(len(files))
            elif r < 0.8:
                op, f = rng.choice(DIR_OPS), 0
            else:
                op, f = "write_" + rng.choice(WRITES + ("bad",)), rng.randrange(len(files))
            rules = []
            if rng.random() < 0.6:
                cls = rng.choice(["read", "read", "read", "open", "open", "stat"] +
                                 (["openw", "write", "write", "rename"] if op.startswith(("write", "dir_u")) else []))
                top = {"read": rng.choice([8, 60]), "write": 20, "stat": 4}.get(cls, 5)
                act, a = "error", rng.choice([errno.EIO, errno.EIO, errno.ENOENT if cls == "open" else errno.EIO,
                                              errno.EMFILE if cls == "open" else errno.EIO])
                if cls == "write":
                    a = rng.choice([errno.ENOSPC, errno.EIO])
                if cls in ("read", "write") and rng.random() < 0.2:
                    act, a = "short", rng.randrange(1, 100)
                rules.append([cls, act, rng.randint(1, top), rng.choice([1, 1, 3, 100000]), a])
            steps.append([op, f, rules, rng.randrange(8)])
        return dict(files=files, steps=steps, listing=rng.randrange(100))

    def make(self, data, f):
        """Write a file; returns its relative name."""
        import dascore as dc
        kind, k, n, dmg = f
        if kind in vendor.FORMATS:
            rel = vendor.file_name(kind, k)
            vendor.make(kind, os.path.join(data, rel), k + 1, t=1_577_836_800 + k, nt=4 + n)
        elif kind == "XMLBINARY":
            rel = f"x{k}"
            os.makedirs(os.path.join(data, rel))
            with open(os.path.join(data, rel, "metadata.xml"), "w") as fh:
                fh.write(dirs._XML.format(iu="a", rate=1000, nd=3, nt=10))
            for j in range(n):
                np.arange(30, dtype="uint16").tofile(os.path.join(data, rel, f"DAS_20200101T00000{j}_000000Z.raw"))
        else:
            rel = f"f{k}" + {"PICKLE": ".pkl", "SEGY": ".segy"}.get(kind, ".h5")
            n = 1 if kind == "SEGY" else n
            ps = [gen.make_patch(dict(id=10 * k + j, t=j * 1000, nt=10, dt=10, nd=3, dtype="float32",
                                      tag=f"p{k}_{j}")) for j in range(n)]
            kw = {"index": True} if kind == "DASDAEI" else {}
            dc.write(dc.spool(ps), os.path.join(data, rel), kind.replace("EI", "E"),
                     {"SEGY": "1.0"}.get(kind), **kw)
        path = os.path.join(data, rel)
        if os.path.isdir(path):
            path = os.path.join(path, sorted(os.listdir(path))[k % (n + 1)])
        if dmg:
            with open(path, "rb") as fh:
                b = fh.read()
            if dmg[0] == "cut":
                b = b[:int(len(b) * dmg[1])]
            elif dmg[0] == "empty":
                b = b""
            else:
                i = int(len(b) * dmg[1])
                b = b[:i] + bytes((i * 37 + j * 101) % 256 for j in range(dmg[2])) + b[i + dmg[2]:]
            with open(path, "wb") as fh:
                fh.write(b)
        return rel

    def build(self, data, plan):
        return [self.make(data, f) for f in plan["files"]]

    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        rels = core.in_process(self.build, data, plan)
        shim.root(data)
        p = Proc(Agent(data))
        try:
            for op, f, rules, arg in plan["steps"]:
                shim.advance(1.0)
                f %= len(rels)
                kind, dmg = plan["files"][f][0], plan["files"][f][3]
                gf = {"DASDAEI": ("DASDAE", "1"), "DASDAE": ("DASDAE", "1"), "PICKLE": ("PICKLE",),
                      "SEGY": ("SEGY", "1.0")}.get(kind, (kind,))
                rel = rels[f]
                if op.startswith("write_"):
                    w = op[6:]
                    if w == "append" and not kind.startswith("DASDAE") or w == "index" and kind != "DASDAE":
                        continue
                    if w not in ("append", "index"):
                        rel = f"new/n{arg}" + {"PICKLE": ".pkl", "SEGY": ".segy", "RSF": ".rsf",
                                               "WAV": ".wav"}.get(w, ".h5")
                try:
                    st, val = p.try_call("op", op, rel, gf, rules, arg)
                except Violation as v:
                    if v.kind == "process-died" and any(f[3] for f in plan["files"]) and rules:
                        ctx.probe("native-crash-on-damaged-file")
                        return          # the HDF5 library itself crashes on some damaged and failing files
                    raise
                if st != "ok":
                    raise Violation("unexpected-" + st, f"{op} {rel}: {val}")
                out, fired, fds, handles, n5, bad_close = val
                ctx.log(op, rel, out, fired)
                ctx.probe(op + ("-fail" if out != "ok" else ""))
                for r, n in zip(rules, fired):
                    ctx.fault(f"{r[1]}@{r[0]}", min(n, 1))
                ctx.state(op, kind, dmg and dmg[0], rules and rules[0][0], out)
                if bad_close and any(fired):
                    ctx.probe("HDF5-failed-to-close")
                    return
                if fds or handles or n5:
                    raise Violation("left-open", f"{op} on {kind} ({dmg and dmg[0]}) with "
                                    f"{rules if any(fired) else 'no fault'} ended as {out}; open: {fds} "
                                    f"PyTables: {[os.path.basename(h) for h in handles]} h5py: {n5}")
        finally:
            p.kill()

    def simplify(self, plan):
        for i, f in enumerate(plan["files"]):
            if f[3]:
                yield dict(plan, files=plan["files"][:i] + [f[:3] + [None]] + plan["files"][i + 1:])
        for i, st in enumerate(plan["steps"]):
            if st[2]:
                yield dict(plan, steps=plan["steps"][:i] + [[st[0], st[1], [], st[3]]] + plan["steps"][i + 1:])
        for i in range(len(plan["files"])):
            if i and all(s[1] % len(plan["files"]) != i for s in plan["steps"]):
                yield dict(plan, files=plan["files"][:i] + plan["files"][i + 1:])
