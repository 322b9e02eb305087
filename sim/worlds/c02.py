"""C02: index queries vs. a direct filter over the full contents, for any query history."""
import fnmatch
import os
import shutil

import numpy as np

from .. import core, dirs, gen, shim
from ..core import Proc, Violation, World

BASE = gen.T_BASE


def _specs():
    rng = core.rng_for("c02-corpus", 1)
    ids = iter(range(100000))
    out = []
    for k in range(16):
        ps = []
        for j in range(rng.choice([1, 4, 10, 14])):
            i = next(ids)
            r = rng.random()
            if r < 0.15:
                t, nt, dt = rng.randrange(0, 30) * 1000, 5, 10000      # long
            elif r < 0.3:
                t, nt, dt = rng.randrange(0, 20) * 86_400_000, 4, 250  # far away
            else:
                t, nt, dt = rng.randrange(0, 240) * 250, rng.choice([2, 3, 5]), rng.choice([50, 250, 500])
            ps.append(dict(id=i, t=t, nt=nt, dt=dt, nd=2, tag=rng.choice(["", "a_", "b_"]) + f"p{i}",
                           station=rng.choice(["", "sta", "stb", "xy"]), network=rng.choice(["", "net", "n2"])))
        out.append(dict(kind="DASDAE", ext=".h5", patches=ps, cuts=[len(ps)]))
    return out


def _build_templates(corpus):
    import warnings
    import dascore as dc
    warnings.simplefilter("ignore")
    out = []
    for t in range(5):
        rng = core.rng_for("c02-tpl", t)
        n = [2, 4, 6, 8, 10][t]
        files = sorted(rng.sample(range(len(corpus)), n))
        tmp = os.path.join(core._DIRBASE, f"tpl-{os.getpid()}-{t}")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            shim.new_clock(1_600_000_100)
            for f in files:
                dirs.place(tmp, f"f{f}.h5", corpus[f]["versions"][0], 1_600_000_000)
            dc.spool(tmp).update(progress=None)
            names = [x for x in os.listdir(tmp) if not x.startswith("f")]
            extra = {x: open(os.path.join(tmp, x), "rb").read() for x in names}
            out.append(dict(files=files, extra=extra))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


class Agent:
    def __init__(self, data):
        self.data = data
        self.spools, self.indexers = {}, {}

    def _get(self, k):
        import dascore as dc
        from dascore.io.indexer import DirectoryIndexer
        if k not in self.spools:
            self.indexers[k] = DirectoryIndexer(self.data)
            self.spools[k] = dc.spool(self.data)
        return self.spools[k], self.indexers[k]

    def open(self, k):
        self._get(k)
        return True

    def query(self, k, iface, time, attrs, form):
        from dascore.clients.dirspool import DirectorySpool
        sp, ind = self._get(k)
        kw = {n: (list(v) if isinstance(v, list) else v) for n, v in attrs.items()}
        if time is not None:
            if iface in ("indexer", "subspool"):   # the ellipsis is a form of select only
                time = [None if x == "..." else x for x in time]
            kw["time"] = tuple(_val(x, form) for x in time)
        if iface == "select":
            df = sp.select(**kw).get_contents()
            n = len(sp.select(**kw))
        elif iface == "indexer":
            df = ind(**kw)
            n = len(df)
        elif iface == "subspool":
            sub = DirectorySpool(ind, select_kwargs=kw)
            df = sub.get_contents()
            n = len(sub)
        else:  # chained
            sub = sp
            for name, v in kw.items():
                sub = sub.select(**{name: v})
            df = sub.get_contents()
            n = len(sub)
        if n != len(df):
            raise Violation("length", f"len {n}, rows {len(df)}")
        return sorted(df["tag"])

    def patch_tags(self, k, time, form, limit):
        from dascore.exceptions import MissingPatchError
        sp, _ = self._get(k)
        sub = sp.select(time=tuple(_val(x, form) for x in time))
        df = sub.get_contents()
        out = []
        for i in range(min(limit, len(sub))):
            try:
                p = sub[i]
            except MissingPatchError:   # documented: no sample inside the range
                continue
            t = p.get_array("time")
            out.append((df["tag"].iloc[i], p.attrs.tag, str(t.min()), str(t.max())))
        return out

    def update(self, k):
        sp, ind = self._get(k)
        self.spools[k] = sp.update(progress=None)
        ind.update(progress=None)
        return True


def _val(x, form):
    if x is None:
        return None
    if x == "...":
        return ...
    v = BASE + np.timedelta64(int(x), "ns")
    if form == "str":
        return str(v)
    if form == "pd":
        import pandas as pd
        return pd.Timestamp(v)
    return v


class WORLD(World):
    prop = "C02"
    quick_runs = 320
    thorough_runs = 20000
    real = ("directory spool selection", "directory indexer with its query cache", "HDF5 index table and its "
            "on-disk query (pandas/PyTables/HDF5)", "DASDAE scanner and reader")
    stubs = ("wall clock (simulated)", "modification times", "directory listing order", "index of the starting "
             "directory is built once by the real code and copied")
    rule = ("Random histories of time/attribute queries through four interfaces over directories of 10-100 indexed "
            "patches, with arrivals and updates by the same or another spool object or process in between.")
    assumptions = ("files appear atomically with a modification time not older than the moment they appear",
                   "ranges are given in ascending order")

    def setup(self):
        self.corpus = dirs.build_corpus(_specs())
        self.templates = core.in_process(_build_templates, self.corpus)
        self.meta = {}
        for f, fam in enumerate(self.corpus):
            for r in fam["versions"][0]["rows"]:
                d = dict(zip(dirs.ROW_COLS, r))
                self.meta[d["tag"]] = dict(file=f, station=d["station"], network=d["network"], tag=d["tag"],
                                           t1=int((np.datetime64(d["time_min"], "ns") - BASE).astype(np.int64)),
                                           t2=int((np.datetime64(d["time_max"], "ns") - BASE).astype(np.int64)))

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    def gen(self, rng, tier):
        tpl = rng.randrange(len(self.templates))
        steps = []
        recent = []
        rest = [f for f in range(len(self.corpus)) if f not in self.templates[tpl]["files"]]
        nq = rng.randint(6, 26 if tier == "quick" else 80)
        for _ in range(nq):
            r = rng.random()
            if r < 0.72:
                if recent and rng.random() < 0.45:
                    t = self._vary(rng, rng.choice(recent))
                else:
                    t = self._time(rng)
                if t is not None:
                    recent = (recent + [t])[-6:]
                iface = rng.choice(["indexer", "indexer", "indexer", "subspool", "select", "chain"])
                attrs = {}
                if rng.random() < 0.3:
                    attrs = self._attrs(rng)
                steps.append(["q", rng.randrange(2), rng.randrange(2), iface, t, attrs,
                              rng.choice(["dt", "dt", "str", "pd"])])
            elif r < 0.8 and rest:
                steps.append(["put", rest.pop(rng.randrange(len(rest)))])
            elif r < 0.93:
                steps.append(["update", rng.randrange(2), rng.randrange(2)])
            elif r < 0.96:
                steps.append(["load", rng.randrange(2), rng.randrange(2), self._time(rng) or [None, None]])
            else:
                steps.append(["wait", rng.choice([0, 0.001, 5])])
        return dict(tpl=tpl, steps=steps, listing=rng.choice([0, 1, 77]))

    def _edge(self, rng):
        m = self.meta[rng.choice(sorted(self.meta))]
        t = rng.choice([m["t1"], m["t2"]])
        return t + rng.choice([0, 0, 1, -1, 10**6, -10**6, 10**9, -10**9, 10**9 + 1, 5 * 10**8, -1500 * 10**6,
                               rng.randrange(-3 * 10**9, 3 * 10**9)])

    def _time(self, rng):
        r = rng.random()
        if r < 0.12:
            return None
        if r < 0.24:
            return [rng.choice([None, "..."]), self._edge(rng)]
        if r < 0.36:
            return [self._edge(rng), rng.choice([None, "..."])]
        a, b = self._edge(rng), self._edge(rng)
        if r < 0.6:
            b = a + rng.choice([0, 1, 10**6, 10**9, 4 * 10**9])
        return sorted([a, b])

    def _vary(self, rng, t):
        a, b = t
        d = rng.choice([0, 0, 1, 10**6, 2 * 10**8, 10**9, 3 * 10**9])
        lo = a if not isinstance(a, int) else a + rng.choice([-1, 1, 1]) * d
        hi = b if not isinstance(b, int) else b + rng.choice([-1, -1, 1]) * d
        if rng.random() < 0.1:
            lo = None
        if isinstance(lo, int) and isinstance(hi, int) and lo > hi:
            lo, hi = hi, lo
        return [lo, hi]

    def _attrs(self, rng):
        out = {}
        c = rng.choice(["station", "network", "tag", "two"])
        if c in ("station", "two"):
            out["station"] = rng.choice(["sta", "st*", "stb", "s?a", ["sta", "xy"], "none", "*"])
        if c in ("network", "two"):
            out["network"] = rng.choice(["net", "n*", ["net"], ["net", "n2"], "zz"])
        if c == "tag":
            out["tag"] = rng.choice(["a_*", "b_*", "*1", "p?", sorted(self.meta)[:5], rng.choice(sorted(self.meta))])
        return out

    # -------------------------------------------------------------- run
    def match(self, m, time, attrs):
        if time is not None:
            a, b = time
            if isinstance(a, int) and m["t2"] < a:
                return False
            if isinstance(b, int) and m["t1"] > b:
                return False
        for k, v in attrs.items():
            if isinstance(v, list):
                if m[k] not in v:
                    return False
            elif not fnmatch.fnmatchcase(m[k], v):
                return False
        return True

    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        tpl = self.templates[plan["tpl"]]
        for f in tpl["files"]:
            dirs.place(data, f"f{f}.h5", self.corpus[f]["versions"][0], 1_600_000_000)
        for n, b in tpl["extra"].items():
            with open(os.path.join(data, n), "wb") as fh:
                fh.write(b)
        disk = set(tpl["files"])
        indexed = [set(disk)]              # successive index states
        since = {}                         # (proc, key) -> position of the state at its last update
        procs = {}
        opened = {}
        try:
            for st in plan["steps"]:
                op = st[0]
                if op == "put":
                    dirs.place(data, f"f{st[1]}.h5", self.corpus[st[1]]["versions"][0], shim.now())
                    disk.add(st[1])
                    ctx.log("put", st[1])
                    continue
                if op == "wait":
                    shim.advance(st[1])
                    continue
                p, k = st[1], st[2]
                if p not in procs:
                    procs[p] = Proc(Agent(data))
                pr = procs[p]
                if (p, k) not in since:
                    pr.call("open", k)
                    since[(p, k)] = len(indexed) - 1
                if op == "update":
                    pr.call("update", k)
                    if indexed[-1] != disk:
                        indexed.append(set(disk))
                    since[(p, k)] = len(indexed) - 1
                    ctx.log("update", p, k, len(disk))
                elif op == "q":
                    got = pr.call("query", k, st[3], st[4], st[5], st[6])
                    ok = False
                    wants = []
                    for state in indexed[since[(p, k)]:]:
                        want = sorted(t for t, m in self.meta.items() if m["file"] in state
                                      and self.match(m, st[4], st[5]))
                        wants.append(want)
                        if got == want:
                            ok = True
                    ctx.log("q", st[3], len(got))
                    ctx.probe("nonempty-query", 1 if got else 0)
                    ctx.probe("proper-subset", 1 if 0 < len(got) < len(self.meta) else 0)
                    ctx.state(plan["tpl"], st[4], str(st[5]), len(indexed))
                    if not ok:
                        want = wants[-1]
                        raise Violation("query", f"{st[3]} time={st[4]} {st[5]}: missing "
                                        f"{[x for x in want if x not in got][:4]}, extra "
                                        f"{[(x, self.meta.get(x)) for x in got if x not in want][:4]}, "
                                        f"{len(got)} rows for {len(want)}")
                elif op == "load":
                    rows = pr.call("patch_tags", k, st[3], "dt", 3)
                    ctx.log("load", len(rows))
                    for tag, ptag, a, b in rows:
                        if tag != ptag:
                            raise Violation("load", f"row {tag} loaded patch {ptag}")
                        m = self.meta[tag]
                        lo = st[3][0] if isinstance(st[3][0], int) else m["t1"]
                        hi = st[3][1] if isinstance(st[3][1], int) else m["t2"]
                        ta = int((np.datetime64(a, "ns") - BASE).astype(np.int64))
                        tb = int((np.datetime64(b, "ns") - BASE).astype(np.int64))
                        if ta < max(lo, m["t1"]) or tb > min(hi, m["t2"]):
                            raise Violation("load", f"{tag} samples {ta}..{tb} outside {lo}..{hi}")
        finally:
            for pr in procs.values():
                pr.kill()

