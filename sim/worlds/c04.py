"""C04: damaged, unreadable and vanishing files among good ones; scanning, indexing and later repair.

State measure: number of good/damaged/repaired files, kinds of damage, operation.
"""
import errno
import hashlib
import os

from .. import core, dirs, shim
from ..core import Proc, Violation, World

DIRS = ["", "", "", "sub", "sub/deep", "other"]
ERRS = [errno.EIO, errno.EACCES, errno.EPERM, errno.ESTALE, errno.ETIMEDOUT]


def rows_of(attrs_list, base):
    return sorted(dirs.attrs_row(a, base) for a in attrs_list)


class Agent:
    def __init__(self, data):
        self.data = data
        self.sp = None

    def _arm(self, faults):
        shim.reset()
        shim.clear()
        core.deny_dirs(())
        gone = {}
        for f in faults:
            kind = f[0]
            if kind == "err":
                _, rel, cls, nth, n, e = f
                shim.rule(getattr(shim, cls), shim.ERR, nth=nth, n=n, arg=e, match="/" + rel)
            elif kind == "vanish":
                _, rel, trig, nth = f
                gone[shim.rule(shim.OPEN, shim.CALLBACK, nth=nth, match=("/" + trig) if trig else "")] = rel
            elif kind == "deny":
                core.deny_dirs([os.path.join(self.data, f[1])])

        def cb(rule, cls, path):
            rel = gone.pop(rule, None)
            if rel is not None:
                try:
                    os.remove(os.path.join(self.data, rel))
                except (FileNotFoundError, IsADirectoryError):
                    pass
            return 0
        shim.callback(cb)

    def run(self, op, faults, new_spool):
        import dascore as dc
        if op == "update" and (self.sp is None or new_spool):
            self.sp = dc.spool(self.data)
        self._arm(faults)
        try:
            if op == "scan":
                out = rows_of(dc.scan(self.data, progress=None), self.data)
            elif op == "scan_df":
                df = dc.scan_to_df(self.data, progress=None)
                if len(df):
                    df["path"] = [os.path.relpath(str(x), self.data) for x in df["path"]]
                    out = dirs.df_rows(df)
                else:
                    out = []
            elif op == "scan_list":
                paths = []
                for r, ds, fs in os.walk(self.data):
                    ds.sort()
                    if "metadata.xml" in fs:
                        paths.append(r)
                        continue
                    paths += [os.path.join(r, x) for x in sorted(fs) if not x.startswith(".")]
                out = rows_of(dc.scan(paths, progress=None), self.data)
            elif op == "update":
                self.sp = self.sp.update(progress=None)
                df = self.sp.get_contents()
                out = dirs.df_rows(df)
                if len(self.sp) != len(out):
                    raise Violation("length", f"len {len(self.sp)} but {len(out)} rows")
            else:
                raise core.HarnessError(op)
        finally:
            fired = [shim.fired(i) for i in range(sum(f[0] != "deny" for f in faults))]
            shim.clear()
            core.deny_dirs(())
        return out, fired

    def one(self, rel):
        """How a damaged file is treated when asked for directly: rows or the exception."""
        import dascore as dc
        path = os.path.join(self.data, rel)
        try:
            return "rows", rows_of(dc.scan(path, progress=None), self.data)
        except Exception as e:  # noqa: BLE001
            return "exc", type(e).__name__

    def load(self, rels):
        """Read some good files completely."""
        import dascore as dc
        return [len(dc.read(os.path.join(self.data, r))) for r in rels]


def damage(files, how):
    """Damaged version of a rendered version: dict of names to bytes."""
    kind = how[0]
    out = {}
    for n, b in files.items():
        if n not in ("", "metadata.xml"):
            out[n] = b
            continue
        if kind == "empty":
            b = b""
        elif kind == "cut":
            b = b[:int(len(b) * how[1])]
        elif kind == "cutbytes":
            b = b[:how[1]]
        elif kind == "garbage":
            g = hashlib.shake_256(str(how[1]).encode()).digest(how[2])
            b = g
        elif kind == "head":
            g = hashlib.shake_256(str(how[1]).encode()).digest(how[2])
            b = g + b[len(g):]
        elif kind == "text":
            b = how[1].encode()
        out[n] = b
    return out


class WORLD(World):
    prop = "C04"
    quick_runs = 380
    thorough_runs = 20000
    real = ("scan, scan_to_df, directory spools and index", "format detection over all installed formats",
            "scanners of DASDAE, PICKLE, SEGY, XMLBINARY, TERRA15, H5SIMPLE, OPTODAS, SILIXA, APSENSING, DASHDF5, "
            "SINTELA", "HDF5/PyTables/h5py/segyio")
    stubs = ("wall clock and modification times", "directory listing order (permuted by seed)",
             "I/O errors and vanishing files (injected at system calls)")
    rule = ("Random directories of good files of eleven formats with files that are empty, cut short, overwritten, "
            "of unknown format, failing with I/O errors at the n-th open/read, vanishing during the scan, or in "
            "unreadable directories; scanned by three routes and indexed, then repaired and indexed again.")
    assumptions = ("a damaged file carries a modification time like any other file",
                   "a repair gives the file a new modification time",
                   "damage is truncation, overwriting of the head, or replacement; not a silent change inside intact data")

    def setup(self):
        self.corpus = [f for f in dirs.build_corpus() if f["spec"]["kind"] != "JUNK"]

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # ---------------------------------------------------------- generation
    def gen(self, rng, tier):
        files = []
        n = rng.randint(2, 9)
        for i in range(n):
            f = rng.randrange(len(self.corpus))
            ext = self.corpus[f]["spec"]["ext"]
            rel = os.path.join(rng.choice(DIRS), f"n{rng.randrange(100):02d}_{i}{ext}")
            files.append([f, rel, self._damage(rng) if rng.random() < 0.45 else None])
        steps = []
        for _ in range(rng.randint(1, 4 if tier == "quick" else 10)):
            r = rng.random()
            if r < 0.7:
                faults = []
                for _ in range(rng.choice([0, 1, 1, 2])):
                    faults.append(self._fault(rng, files))
                steps.append([rng.choice(["scan", "scan_df", "scan_list", "update", "update", "update"]), faults,
                              rng.random() < 0.5])
            elif r < 0.85:
                steps.append(["repair", rng.randrange(n)])
            elif r < 0.93:
                steps.append(["damage", rng.randrange(n), self._damage(rng)])
            else:
                steps.append(["restart"])
        return dict(files=files, steps=steps, listing=rng.choice([0, 1, rng.randrange(2, 1000)]))

    def _damage(self, rng):
        r = rng.random()
        if r < 0.15:
            return ["empty"]
        if r < 0.5:
            return ["cut", rng.choice([rng.random(), rng.random(), 0.05, 0.5, 0.9, 0.99])]
        if r < 0.6:
            return ["cutbytes", rng.choice([1, 2, 4, 8, 11, 12, 16, 40, 100, 240, 800, 2048, 3600, 3601])]
        if r < 0.75:
            return ["garbage", rng.randrange(1000), rng.choice([1, 3, 11, 12, 100, 4000])]
        if r < 0.92:
            return ["head", rng.randrange(1000), rng.choice([1, 8, 16, 96, 500])]
        return ["text", rng.choice(["notes\n", "Param;x;1\nParam;y;2\nParam;z;3\n", "<?xml version='1.0'?><a/>", "\x80"])]

    def _fault(self, rng, files):
        rel = rng.choice(files)[1]
        r = rng.random()
        if r < 0.6:
            cls = rng.choice(["OPEN", "READ", "READ"])
            nth = rng.choice([1, 1, 2, 3, rng.randint(1, 40)])
            return ["err", rel, cls, nth, rng.choice([1, 1, 3, 100000]), rng.choice(ERRS)]
        if r < 0.9:
            trig = rng.choice(["", "", rng.choice(files)[1]])
            return ["vanish", rel, trig, rng.choice([1, 1, 2, 3, rng.randint(1, 25)])]
        return ["deny", os.path.dirname(rel) or "nodir"]

    # ---------------------------------------------------------- execution
    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        shim.root(data)
        self.disk = {}           # rel -> ("good", version) | ("bad", version, how)
        unsure = {}              # rel -> rows it may also have in the index (older or partial knowledge)
        for f, rel, dmg in plan["files"]:
            self.put(data, rel, f, dmg)
        p = Proc(Agent(data))
        indexed = {}             # rel -> set of rows the index may hold for it
        try:
            for st in plan["steps"] + [["settle"]]:
                shim.advance(1.0)
                op = st[0]
                if op == "restart":
                    p.kill()
                    p = Proc(Agent(data))
                    ctx.log("restart")
                elif op == "repair":
                    f, rel, _ = plan["files"][st[1] % len(plan["files"])]
                    self.put(data, rel, f, None)
                    ctx.log("repair", rel)
                    ctx.probe("repair")
                elif op == "damage":
                    f, rel, _ = plan["files"][st[1] % len(plan["files"])]
                    if rel not in indexed:      # a replaced file's old rows stay listed; C01's subject
                        self.put(data, rel, f, st[2])
                        ctx.log("damage", rel)
                elif op == "settle":
                    # every file that is still there is repaired: everything must be listed
                    p.kill()
                    p = Proc(Agent(data))
                    for f, rel, _ in plan["files"]:
                        if rel in self.disk:
                            self.put(data, rel, f, None)
                    shim.advance(1.0)
                    rows, _ = p.call("run", "update", [], True)
                    self.judge(ctx, "update after repair", rows, {}, indexed, exact=True)
                else:
                    self.op(ctx, p, data, op, st[1], st[2], indexed)
                ctx.state(op, sum(1 for v in self.disk.values() if v[0] == "good"), len(self.disk))
        finally:
            p.kill()

    def put(self, data, rel, f, dmg):
        fam = self.corpus[f]
        v = fam["versions"][0]
        path = os.path.join(data, rel)
        if fam["spec"]["kind"] == "XMLBINARY" and os.path.isdir(path):
            import shutil
            shutil.rmtree(path)
        if dmg is None:
            dirs.place(data, rel, v, shim.now())
            self.disk[rel] = ("good", v)
        else:
            dirs.place(data, rel, {"files": damage(v["files"], dmg)}, shim.now())
            self.disk[rel] = ("bad", v, dmg)

    def op(self, ctx, p, data, op, faults, new_spool, indexed):
        maybe = {}
        faults = [f for f in faults if f[0] == "deny" or f[1] in self.disk]
        for f in faults:
            if f[0] == "deny":
                for rel in self.disk:
                    if (os.path.dirname(rel) + "/").startswith(f[1] + "/"):
                        maybe[rel] = f
            else:
                maybe[f[1]] = f
        try:
            rows, fired = p.call("run", op, faults, new_spool)
        except Violation as v:
            if op == "scan_list" and v.kind == "unexpected-exception" and any(f[0] != "deny" for f in faults):
                raise core.Skip("a path asked for by name failed") from None
            raise
        for f, n in zip([f for f in faults if f[0] != "deny"], fired):
            ctx.fault(f[0] + ("-" + f[2].lower() if f[0] == "err" else ""), min(n, 1))
        for f in faults:
            if f[0] == "deny":
                ctx.fault("deny-dir")
        ctx.log(op, faults, len(rows), fired)
        ctx.probe(op)
        self.judge(ctx, op, rows, maybe, indexed if op == "update" else {})
        for rel in list(self.disk):
            if not os.path.exists(os.path.join(data, rel)):
                del self.disk[rel]
        if op == "update":
            for r in rows:
                indexed.setdefault(self.owner(r[0]) or r[0], set()).add(r)
            # files that failed without being changed are only scanned again once touched
            for rel in maybe:
                if rel in self.disk and self.disk[rel][0] == "good":
                    self.disk[rel] = ("failed",) + self.disk[rel][1:]

    def owner(self, path):
        for rel in self.disk:
            if path == rel or path.startswith(rel + "/"):
                return rel
        return None

    def judge(self, ctx, op, rows, maybe, indexed, exact=False):
        got = {}
        for r in rows:
            got.setdefault(self.owner(r[0]) or r[0], []).append(r)
        for rel, st in self.disk.items():
            want = sorted(dirs.expected_rows(rel, st[1]))
            have = sorted(got.pop(rel, []))
            if have == want:
                if st[0] == "bad":
                    ctx.probe("damaged-but-complete")
                continue
            if st[0] == "good" and rel not in maybe:
                raise Violation("good-file-lost", f"{op}: {rel} reported as {have[:2]} ({len(have)}), "
                                f"expected {want[:2]} ({len(want)}); damaged: "
                                f"{[(k, v[2]) for k, v in self.disk.items() if v[0] == 'bad']} faults {list(maybe.values())}")
            if st[0] == "bad":
                ctx.probe("damaged-skipped" if not have else "damaged-partial")
            extra = [r for r in have if r not in want]
            if extra:
                raise Violation("misreported", f"{op}: damaged or failing {rel} ({st[2:]}) reported as {extra[:2]}, "
                                f"true contents {want[:2]}")
            if len(have) != len(set(have)):
                raise Violation("duplicates", f"{op}: {have}")
        for rel, rs in got.items():
            # gone from disk: may only be listed by an index that knew it
            bad = [r for r in rs if r not in indexed.get(rel, ()) and rel not in maybe]
            if bad:
                raise Violation("misreported", f"{op}: rows of unknown origin {bad[:2]}")

    def simplify(self, plan):
        for i in range(len(plan["files"])):
            if len(plan["files"]) > 1:
                yield dict(plan, files=plan["files"][:i] + plan["files"][i + 1:])
        for i, st in enumerate(plan["steps"]):
            if len(st) > 1 and isinstance(st[1], list) and st[1]:
                for k in range(len(st[1])):
                    c = list(plan["steps"])
                    c[i] = [st[0], st[1][:k] + st[1][k + 1:], st[2]]
                    yield dict(plan, steps=c)
        if plan["listing"]:
            yield dict(plan, listing=0)
