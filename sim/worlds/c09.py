"""C09: histories of detections in fresh interpreters with other hash seeds and plugin orders.

State measure: (operation, file kind, variant, position in the history, hash seed bucket, outcome).
"""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from .. import c09agent, core, dirs, gen, vendor
from ..core import Violation, World

T0 = 1_577_836_800


def corpus_specs():
    """(name, kind, maker kwargs, polyglot)."""
    out = []

    def add(name, kind, poly=False, dmg=None, **kw):
        out.append(dict(name=name, kind=kind, poly=poly, dmg=dmg, kw=kw))

    for k, ext in enumerate((".h5", ".hdf5", ".txt", "", ".segy", ".pkl", ".das", ".raw")):
        add(f"dasdae{k}{ext}", "DASDAE", i=k, index=k % 2)
        add(f"pick{k}{ext}", "PICKLE", i=k)
        add(f"segy{k}{ext}", "SEGY", i=k)
        add(f"sint{k}{ext}", "SINTELA_BINARY", i=k)
    h5 = ("TERRA15", "H5SIMPLE", "OPTODAS", "SILIXA_H5", "APSENSING", "DASHDF5", "PRODML", "NEUBREX")
    for j, kind in enumerate(h5):
        for k, ext in enumerate((".h5", ".hdf5", ".dat", "")):
            add(f"{kind.lower()}{k}{ext}", kind, i=j * 4 + k)
    for v in ("4", "6"):
        add(f"terra_v{v}.hdf5", "TERRA15", i=int(v), version=v)
    add("prodml20.h5", "PRODML", i=3, version="2.0")
    add("febg1_C1_2023-05-10T12.25.01+0000.bsl", "FEBUS_G1_CSV", i=1)
    add("febg1_C1_2023-05-10T12.25.02+0000.mtx", "FEBUS_G1_CSV", i=2)
    add("febg1_C1_2023-05-10T12.25.03+0000.h5", "FEBUS_G1_CSV", i=3)
    add("DAS_20230328155652124.das", "SENTEK", i=1)
    add("DAS_20230328155652125.dat", "SENTEK", i=2)
    add("x.tdms", "TDMS", i=1)
    add("y.h5", "TDMS", i=1)
    add("xml0", "XMLBINARY", i=1)
    add("xml1", "XMLBINARY", i=2)
    add("junk.h5", "JUNK", b="0123456789" * 500)
    add("junk.txt", "JUNK", b="hello\n")
    add("empty.h5", "JUNK", b="")
    add("empty", "JUNK", b="")
    add("zz.dat", "JUNK", b="ZZTEST 1\n" * 10)
    add("zz.h5", "JUNK", b="ZZTEST 1\n" * 500)
    for k in range(4):
        add(f"poly{k}.h5", "POLY_H5", poly=True, i=k, which=k)
        add(f"poly{k}.bin", "POLY_H5", poly=True, i=k, which=k)
    add("poly.pkl", "POLY_SEGY", poly=True, i=1, which=0)
    add("poly.sgy", "POLY_SEGY", poly=True, i=1, which=0)
    add("poly", "POLY_SEGY", poly=True, i=1, which=0)
    add("DAS_20230328155652126.das", "POLY_SEGY", poly=True, i=2, which=1)
    for j, kind in enumerate(("DASDAE", "PICKLE", "SEGY", "TERRA15", "OPTODAS", "SINTELA_BINARY", "SILIXA_H5")):
        for k, cut in enumerate((0.9, 0.5, 0.2)):
            add(f"cut{k}_{kind.lower()}" + (".h5", ".dat", ".hdf5")[(j + k) % 3], kind, dmg=cut, i=j)
    return out


def make(path, s):
    import dascore as dc
    kind, kw = s["kind"], dict(s["kw"])
    i = kw.pop("i", 0)
    if kind == "JUNK":
        with open(path, "w") as f:
            f.write(kw["b"])
        return
    if kind == "XMLBINARY":
        os.makedirs(path)
        with open(os.path.join(path, "metadata.xml"), "w") as fh:
            fh.write(dirs._XML.format(iu=f"iu{i}", rate=1000, nd=3, nt=10))
        for j in range(2):
            np.arange(30, dtype="uint16").tofile(os.path.join(path, f"DAS_20200101T00000{j}_000000Z.raw"))
        return
    t = T0 + 10 * i
    other = {"PRODML": vendor.prodml, "NEUBREX": vendor.neubrex_rfs, "SENTEK": vendor.sentek, "TDMS": vendor.tdms,
             "POLY_H5": vendor.poly_h5, "POLY_SEGY": vendor.poly_segy}
    if kind in vendor.FORMATS:
        vendor.make(kind, path, i, t=t, nt=5, **kw)
    elif kind in other:
        other[kind](path, i, t, 5, 3, **kw)
    else:
        ps = [gen.make_patch(dict(id=10 * i + j, t=j * 1000, nt=10, dt=10, nd=3, dtype="float32", tag=f"p{i}_{j}"))
              for j in range(1 if kind == "SEGY" else 2)]
        tmp = path + ".tmp"
        dc.write(dc.spool(ps), tmp, kind, {"SEGY": "1.0"}.get(kind), **({"index": True} if kw.get("index") else {}))
        os.rename(tmp, path)
    if s["dmg"]:
        with open(path, "r+b") as f:
            f.truncate(int(os.path.getsize(path) * s["dmg"]))


def build(d, specs):
    import warnings
    warnings.simplefilter("ignore")
    os.makedirs(d, exist_ok=True)
    for s in specs:
        make(os.path.join(d, s["name"]), s)


def reference(d, name):
    """What a process that opens nothing but this file gets (default order, hash seed 0)."""
    import warnings
    warnings.simplefilter("ignore")
    path = os.path.join(d, name)
    return json.loads(json.dumps(dict(format=c09agent.get_format(path), read=c09agent.read(path, d),
                                      scan=c09agent.scan(path, d), contents=c09agent.contents(path, d))))


class WORLD(World):
    prop = "C09"
    quick_runs = 150
    thorough_runs = 6000
    real = ("format detection, plugin registry, scan, read, directory index of all formats, in a new interpreter per run",
            "Python's own hash randomisation")
    stubs = ("order of the installed entry points (permuted)", "directory listing order", "vendor files (synthetic)")
    rule = ("Each run starts a new interpreter with a seeded hash seed, entry-point order and listing order and performs a "
            "random history of detections, reads, scans, directory scans, hints, plugin loads and registrations over a "
            "corpus of about 110 files (fitting, foreign and missing extensions, damaged, and accepted by two formats); "
            "every result is compared with that of a process which opened only that file.")
    assumptions = ("for files which more than one format accepts, the format last used in the same directory scan may be "
                   "preferred (documented speed-up); such files are checked one by one only",)

    def setup(self):
        import dascore  # noqa: F401
        self.specs = corpus_specs()
        self.by = {s["name"]: s for s in self.specs}
        self.dir = os.path.join(core._DIRBASE, f"c09-corpus-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        core.in_process(build, self.dir, self.specs)
        self.ref = {}
        procs = []
        for s in self.specs:
            procs.append((s["name"], core.spawn(reference, self.dir, s["name"])))
            if len(procs) == 12:
                self._collect(procs)
        self._collect(procs)
        self.bytes = {}
        for s in self.specs:
            p = os.path.join(self.dir, s["name"])
            if os.path.isdir(p):
                self.bytes[s["name"]] = {n: open(os.path.join(p, n), "rb").read() for n in sorted(os.listdir(p))}
            else:
                self.bytes[s["name"]] = open(p, "rb").read()
        shutil.rmtree(self.dir, ignore_errors=True)

    def _collect(self, procs):
        for name, h in procs:
            st, val = core.collect(*h)
            if st == "died":      # the HDF5 library may crash on a damaged file
                self.ref[name] = None
                continue
            if st != "ok":
                raise core.HarnessError(f"reference {name}: {st} {val}")
            self.ref[name] = val
        procs.clear()

    def gen(self, rng, tier):
        names = [s["name"] for s in self.specs if self.ref[s["name"]]]
        plain = [n for n in names if not self.by[n]["poly"]]
        poly = [n for n in names if self.by[n]["poly"]]
        subs = [sorted(rng.sample(plain, rng.randint(2, 9))) for _ in range(rng.randint(1, 3))]
        formats = [("DASDAE", "1"), ("PICKLE", ""), ("SEGY", "1.0"), ("TERRA15", "5"), ("TERRA15", "4"), ("H5SIMPLE", "1"),
                   ("OPTODAS", "8"), ("PRODML", "2.0"), ("FEBUS", "2"), ("SENTEK", "5"), ("TDMS", "4713"),
                   ("APSENSING", "10"), ("SINTELA_BINARY", "3"), ("SILIXA_H5", "1"), ("XMLBINARY", "1")]
        steps = []
        for _ in range(rng.randint(8, 25 if tier == "quick" else 60)):
            r = rng.random()
            f = rng.choice(poly if rng.random() < 0.25 else plain)
            if r < 0.25:
                steps.append(["format", f])
            elif r < 0.4:
                steps.append(["read", f])
            elif r < 0.5:
                steps.append(["scan", f])
            elif r < 0.55:
                steps.append(["contents", f])
            elif r < 0.63:
                steps.append(["read_as", f, list(rng.choice(formats))])
            elif r < 0.72:
                steps.append(["scan_dir", f"d{rng.randrange(len(subs))}"])
            elif r < 0.77:
                steps.append(["index_dir", f"d{rng.randrange(len(subs))}"])
            elif r < 0.85:
                steps.append(["hint", rng.choice(plain), list(rng.choice(formats))])
            elif r < 0.92:
                steps.append(["load", None, list(rng.choice(formats))])
            else:
                steps.append(["plugin", None, rng.choice(["zz", "zz", "first", "raise", "newver", "newver2"])])
        return dict(subs=subs, steps=steps, listing=rng.randrange(100), hashseed=rng.randrange(1, 1000),
                    order=rng.randrange(0, 1000))

    def put(self, path, name):
        b = self.bytes[name]
        if isinstance(b, dict):
            os.makedirs(path)
            for n, x in b.items():
                with open(os.path.join(path, n), "wb") as f:
                    f.write(x)
        else:
            with open(path, "wb") as f:
                f.write(b)

    def execute(self, plan, ctx):
        base = ctx.root
        os.makedirs(os.path.join(base, "files"))
        for n in {s[1] for s in plan["steps"] if isinstance(s[1], str) and s[1] in self.by}:
            self.put(os.path.join(base, "files", n), n)
        for k, sub in enumerate(plan["subs"]):
            os.makedirs(os.path.join(base, f"d{k}"))
            for n in sub:
                self.put(os.path.join(base, f"d{k}", n), n)
        with open(os.path.join(base, "plan.json"), "w") as f:
            json.dump(dict(plan=plan, base=base), f)
        out = os.path.join(base, "out.json")
        env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]))
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sim.c09agent", os.path.join(base, "plan.json"), out],
                           env=env, capture_output=True, text=True, timeout=120)
        if p.returncode or not os.path.exists(out):
            raise core.HarnessError(f"agent exit {p.returncode}: {p.stderr[-2500:]}")
        with open(out) as f:
            res = json.load(f)
        ctx.fault("hash-seed")
        ctx.fault("plugin-order", plan["order"] > 0)
        zz = False
        for k, (st, got) in enumerate(zip(plan["steps"], res)):
            op, arg = st[0], st[1]
            ctx.log(op, arg, got)
            ctx.probe(op)
            where = f"step {k} {op} {arg} (hash seed {plan['hashseed']}, plugin order {plan['order']})"
            if op == "plugin":
                zz = zz or st[2] == "zz"
                ctx.fault("plugin-registered")
                continue
            if op == "load":
                continue
            if op in ("format", "read", "scan", "contents", "hint"):
                want = self.ref[arg]["format" if op == "hint" else op]
                if zz and arg.startswith("zz."):
                    want = ["ok", ["ZZTEST", "1"]] if op in ("format", "hint") else None
                if op == "hint":
                    ctx.fault("hint")
                ctx.state(op, self.by[arg]["kind"], arg, min(k, 4), got[0])
                if want is not None and got != want:
                    raise Violation(f"{op}-differs", f"{where}: {str(got)[:300]} but alone: {str(want)[:300]}")
            elif op == "read_as":
                fmt = self.ref[arg]["format"]
                if fmt[0] == "ok" and fmt[1][0].upper() == st[2][0] and fmt[1][1] == st[2][1]:
                    if got != self.ref[arg]["read"]:
                        raise Violation("read-differs", f"{where} as {st[2]}: {str(got)[:300]} but alone: "
                                        f"{str(self.ref[arg]['read'])[:300]}")
            else:
                sub = plan["subs"][int(arg[1:])]
                want = {}
                for n in sub:
                    s = self.ref[n]["scan"]
                    if s[0] == "ok" and s[1] and not (zz and n.startswith("zz.")):
                        want[n] = s[1]
                ctx.state(op, *sorted({self.by[n]["kind"] for n in sub}))
                if got[0] == "err":
                    raise Violation("scan-raised", f"{where} over {sub}")
                g = {n: v for n, v in got[1].items() if not (zz and n.startswith("zz."))}
                if g != want:
                    bad = sorted(n for n in set(g) | set(want) if g.get(n) != want.get(n))
                    raise Violation("dir-differs", f"{where}: {[(n, str(g.get(n))[:200], str(want.get(n))[:200]) for n in bad][:3]}")

    def simplify(self, plan):
        if plan["order"]:
            yield dict(plan, order=0)
        if plan["hashseed"] != 1:
            yield dict(plan, hashseed=1)
        if plan["listing"]:
            yield dict(plan, listing=0)
        for k, sub in enumerate(plan["subs"]):
            for n in sub:
                yield dict(plan, subs=plan["subs"][:k] + [[x for x in sub if x != n]] + plan["subs"][k + 1:])
