"""C07: writes of every writable format under disk faults and with unsuitable inputs.

State measure: format, outcome, fault class and position bucket, earlier contents.
"""
import errno
import hashlib
import os

from .. import core, dirs, gen, shim
from ..core import Proc, Violation, World
from .c06 import Agent as Base

CLS = {"write": shim.WRITE, "openw": shim.OPENW, "open": shim.OPEN, "read": shim.READ, "truncate": shim.TRUNC,
       "close": shim.CLOSE, "rename": shim.RENAME, "sync": shim.SYNC,
       "any": shim.WRITE | shim.OPENW | shim.OPEN | shim.TRUNC | shim.CLOSE | shim.RENAME}
ACT = {"error": shim.ERR, "short": shim.SHORT, "crash": shim.CRASH_BEFORE, "torn": shim.TORN_CRASH}
BAD = {"DASDAE": ["datetime", "object", "good+object"], "SEGY": ["two", "notime", "badstep"],
       "RSF": ["two", "complex"], "WAV": ["two", "3d"], "PICKLE": ["unknown-version"]}


class Agent(Base):
    def _patches(self, specs):
        import numpy as np
        out = []
        for s in specs:
            p = gen.make_patch({k: v for k, v in s.items() if k != "bad"})
            b = s.get("bad")
            if b == "datetime":
                p = p.new(data=np.zeros(p.shape, "M8[ns]"))
            elif b == "object":
                p = p.new(data=p.data.astype(object))
            elif b == "complex":
                p = p.new(data=p.data.astype(complex))
            out.append(p)
        return out

    def put(self, rel, fmt, version, specs, kind, index, rules=()):
        import dascore as dc
        patches = self._patches(specs)
        obj = patches[0] if kind == "patch" and len(patches) == 1 else dc.spool(patches)
        kw = {"index": True} if index else {}
        path = self.p(rel)
        shim.reset()
        shim.clear()
        for cls, act, nth, cnt, arg in rules:
            shim.rule(CLS[cls], ACT[act], nth=nth, n=cnt, arg=arg, match="" if cls == "rename" else "/" + rel)
        try:
            dc.write(obj, path, fmt, version, **kw)
        finally:
            self.fired = [shim.fired(i) for i in range(len(rules))]
            shim.clear()
        return True

    def fired_rules(self):
        return self.fired

    def image(self, rel):
        """Comparable content of a file (or directory) of a write-only format."""
        path = self.p(rel)
        names = [path] if os.path.isfile(path) else [os.path.join(path, n) for n in sorted(os.listdir(path))]
        out = []
        for n in names:
            with open(n, "rb") as f:
                b = f.read()
            if b.startswith(b"DASCORE"):
                b = b.split(b"\n", 1)[1]          # the first line has the time of writing
            out.append((os.path.basename(n) if os.path.isdir(path) else "", len(b), hashlib.md5(b).hexdigest()))
        return out


class WORLD(World):
    prop = "C07"
    quick_runs = 220
    thorough_runs = 20000
    real = ("writers of DASDAE (with and without in-file index), PICKLE, SEGY, RSF and WAV",
            "HDF5/PyTables, segyio, scipy wav writer, Python file I/O", "readers and scanners for reading back")
    stubs = ("wall clock", "disk faults (injected at system calls and stdio calls on the written file)")
    rule = ("Random writes of each format to new or existing files with an error, short write, torn write or crash at "
            "the n-th open/write/truncate/close/read of the written file, or with inputs the format cannot store; "
            "read back by a new process, other files compared byte by byte, then retried in the same process.")
    assumptions = ("a file that could not be written completely may have to be removed or restored before a retry "
                   "(formats that replace the file are retried in place)",
                   "after an I/O error or crash the file being written may be unreadable; other files may not")

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # ---------------------------------------------------------- generation
    def _spec(self, rng, fmt, i):
        if fmt in ("SEGY", "RSF", "WAV"):
            return dict(id=i, t=rng.randrange(20) * 1000, nt=rng.choice([4, 8, 300]), dt=10,
                        nd=rng.choice([2, 3, 40]), dtype="float32")
        s = gen.gen_spec(rng, i, tag=f"p{i}")
        if rng.random() < 0.3:
            s["nt"], s["nd"] = 200, rng.choice([20, 400])
        return s

    def gen(self, rng, tier):
        steps = []
        for k in range(rng.randint(1, 3 if tier == "quick" else 8)):
            fmt = rng.choice(["DASDAE", "DASDAE", "DASDAE", "PICKLE", "PICKLE", "SEGY", "RSF", "WAV"])
            ext = {"DASDAE": ".h5", "PICKLE": ".pkl", "SEGY": ".segy", "RSF": ".rsf",
                   "WAV": rng.choice([".wav", "_wavdir"])}[fmt]
            multi = fmt in ("DASDAE", "PICKLE")
            prior = [self._spec(rng, fmt, 100 * k + j) for j in range(rng.choice([0, 1, 2]) if multi else
                                                                     rng.choice([0, 1]))]
            new = [self._spec(rng, fmt, 100 * k + 50 + j) for j in range(rng.choice([1, 1, 2, 3]) if multi else 1)]
            if rng.random() < 0.3 and fmt in BAD and fmt != "PICKLE":
                bad = rng.choice(BAD[fmt])
                steps.append(["reject", fmt, f"f{k}{ext}", prior, new, bad, rng.random() < 0.4])
            else:
                steps.append(["fault", fmt, f"f{k}{ext}", prior, new, self._rules(rng, fmt), rng.random() < 0.3,
                              rng.random() < 0.5])
        return dict(steps=steps)

    def _rules(self, rng, fmt):
        r = rng.random()
        if r < 0.12:
            cls = rng.choice(["write", "write", "openw", "close", "any"])
            act = "torn" if cls == "write" and rng.random() < 0.5 else "crash"
            return [[cls, act, self._nth(rng, cls, fmt), 1, rng.randrange(1, 4000)]]
        cls = rng.choice(["write", "write", "write", "write", "open", "openw", "truncate", "close", "read", "sread", "any"])
        act, cnt = "error", rng.choice([1, 1, 2, 100000, 100000])
        arg = rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EROFS])
        if cls == "write" and rng.random() < 0.3:
            act, arg, cnt = "short", rng.randrange(1, 300), rng.choice([1, 3, 40])
        if cls == "sread":
            cls, act, arg = "read", "short", rng.randrange(1, 300)
        return [[cls, act, self._nth(rng, cls, fmt), cnt, arg]]

    def _nth(self, rng, cls, fmt):
        many = {"DASDAE": 40, "SEGY": 12, "PICKLE": 4}.get(fmt, 3)
        top = {"write": many, "any": many, "open": 4, "openw": 3, "close": 5, "truncate": 2, "read": 20}[cls]
        return rng.randint(1, top if rng.random() < 0.5 else min(top, 4))

    # ---------------------------------------------------------- execution
    def execute(self, plan, ctx):
        data = os.path.join(ctx.root, "data")
        os.makedirs(data)
        shim.root(data)
        p = Proc(Agent(data))
        p.call("put", "bystander.h5", "DASDAE", None, [dict(id=900, t=0, nt=5, dt=100, nd=3, tag="by")], "patch", False)
        p.call("put", "bystander.pkl", "PICKLE", None, [dict(id=901, t=0, nt=5, dt=100, nd=3, tag="by")], "patch", False)
        try:
            for st in plan["steps"]:
                shim.advance(1.0)
                p = self.step(ctx, data, p, st)
        finally:
            p.kill()

    def sums(self, data, but):
        out = {}
        for r, ds, fs in os.walk(data):
            for n in fs:
                q = os.path.join(r, n)
                rel = os.path.relpath(q, data)
                if rel == but or rel.startswith(but + "/") or n.startswith("."):
                    continue
                with open(q, "rb") as f:
                    out[rel] = hashlib.md5(f.read()).hexdigest()
        return out

    def snapshot(self, path):
        if os.path.isfile(path):
            with open(path, "rb") as f:
                return f.read()
        if os.path.isdir(path):
            return {n: self.snapshot(os.path.join(path, n)) for n in os.listdir(path)}
        return None

    def restore(self, path, snap):
        import shutil
        if os.path.isdir(path):
            shutil.rmtree(path)
        elif os.path.exists(path):
            os.remove(path)
        if isinstance(snap, bytes):
            with open(path, "wb") as f:
                f.write(snap)
        elif snap is not None:
            os.makedirs(path)
            for n, b in snap.items():
                self.restore(os.path.join(path, n), b)

    def step(self, ctx, data, p, st):
        kind, fmt, rel, prior, new = st[:5]
        version = {"SEGY": "1.0"}.get(fmt)
        if prior:
            p.call("put", rel, fmt, version, prior, "memory", False)
            self.verify(ctx, data, rel, fmt, prior, "earlier write")
        others = self.sums(data, rel)
        path = os.path.join(data, rel)
        snap = self.snapshot(path)
        want = (prior if fmt == "DASDAE" else []) + new
        if kind == "reject":
            bad, index = st[5], st[6]
            specs = self.bad_specs(new, bad)
            s, val = p.try_call("put", rel, fmt, version, specs, "memory", index and fmt == "DASDAE")
            ctx.log("reject", fmt, bad, s, val)
            ctx.fault(f"bad-input-{fmt}-{bad}")
            if s == "ok":
                raise Violation("bad-input-accepted", f"{fmt} write of {bad} returned normally")
            if self.sums(data, rel) != others:
                raise Violation("other-files-changed", f"rejected write of {rel}")
            if fmt == "DASDAE" and prior:
                keep = prior
                q = Proc(Agent(data))
                try:
                    for a in (q, p):
                        gf, digs, rows, n, _ = a.call("look", rel, "read", fmt)
                        have = [gen.dkey(d) for d in digs]
                        for sp in keep:
                            if gen.dkey(gen.digest(gen.make_patch(sp))) not in have:
                                raise Violation("earlier-patch-lost", f"{fmt} after rejected input {bad}: "
                                                f"{sp['id']} is gone; {len(have)} patches left")
                        if bad != "good+object" and len(have) != len(keep):
                            raise Violation("ghost-patch", f"{len(have)} patches after rejected input, {len(keep)} before")
                finally:
                    q.kill()
            p.call("put", rel, fmt, version, new, "memory", False)
            if bad != "good+object":
                self.verify(ctx, data, rel, fmt, want, "write after a rejected one")
            ctx.state(kind, fmt, bad, bool(prior))
            return p
        rules, index, as_patch = st[5], st[6] and fmt == "DASDAE", st[7]
        s, val = p.try_call("put", rel, fmt, version, new, "patch" if as_patch else "memory", index, rules)
        if s == "crashed":
            fired = [1]
            p = Proc(Agent(data))
        else:
            fired = p.call("fired_rules")
        for r, n in zip(rules, fired):
            ctx.fault(f"{r[1]}@{r[0]}", min(n, 1))
        ctx.log("fault", fmt, rules, s, fired)
        ctx.probe(f"{fmt}-{s}" + ("-faulted" if any(fired) else ""))
        ctx.state(fmt, s, rules[0][0], rules[0][1], min(rules[0][2], 8), bool(prior), any(fired)) if rules else None
        if s == "error" and not any(fired):
            raise Violation("unexpected-exception", val)
        if s == "error" and all(r[1] == "short" for r in rules):
            raise Violation("short-write-not-completed", f"{fmt}: a short read or write ended as {val}")
        if s == "ok":
            self.verify(ctx, data, rel, fmt, want, f"write that returned (faults {rules}, fired {fired})")
        if self.sums(data, rel) != others:
            raise Violation("other-files-changed", f"{fmt} write of {rel} with {rules}: {s}")
        # the process must still be able to use other files ...
        p.call("look", "bystander.h5", "read", "DASDAE")
        # ... and a retry must work
        if s != "ok":
            if fmt == "DASDAE":
                self.restore(path, snap)
            p.call("put", rel, fmt, version, new, "memory", index)
            self.verify(ctx, data, rel, fmt, want, "retry")
            ctx.log("retried")
        return p

    def bad_specs(self, new, bad):
        one = new[0]
        if bad in ("datetime", "object", "complex"):
            return [dict(one, bad=bad)]
        if bad == "good+object":
            return [one, dict(one, id=one["id"] + 7, tag="badone", bad="object")]
        if bad == "two":
            return [one, dict(one, id=one["id"] + 7, t=one["t"] + 100000)]
        if bad == "notime":
            return [dict(id=one["id"], special="notime")]
        if bad == "3d":
            return [dict(id=one["id"], special="3d")]
        if bad == "badstep":
            return [dict(id=one["id"], special="ns")]
        raise core.HarnessError(bad)

    def verify(self, ctx, data, rel, fmt, specs, what):
        q = Proc(Agent(data))
        try:
            if fmt in ("RSF", "WAV"):
                got = q.call("image", rel)
                ref = os.path.join(ctx.root, "ref")
                os.makedirs(ref, exist_ok=True)
                r = Proc(Agent(ref))
                try:
                    self.restore(os.path.join(ref, rel), None)
                    r.call("put", rel, fmt, None, specs, "memory", False)
                    want = r.call("image", rel)
                finally:
                    r.kill()
                if fmt == "WAV":      # a directory keeps files of channels written before
                    got = [g for g in got if g[0] in {w[0] for w in want}]
                if got != want:
                    raise Violation("incomplete-write", f"{what}: {fmt} file {got}, fault-free write {want}")
                return
            s, val = q.try_call("look", rel, "read", fmt)
            if s == "error":
                raise Violation("incomplete-write", f"{what}: {fmt} file cannot be read back: {val}")
            gf, digs, rows, n, _ = val
            if fmt == "SEGY":
                w = gen.make_patch(specs[0]).transpose("time", "distance")
                ok = (len(digs) == 1 and len(rows) == 1 and digs[0]["data"] == gen.arr_digest(w.data)
                      and digs[0]["coords"]["time"][1] == gen.arr_digest(w.get_array("time")))
                if not ok:
                    raise Violation("incomplete-write", f"{what}: SEGY read back as {digs} for {gen.digest(w)}")
                return
            got = sorted(digs, key=gen.dkey)
            want = sorted((gen.digest(gen.make_patch(s)) for s in specs), key=gen.dkey)
            if got != want or len(rows) != len(want):
                raise Violation("incomplete-write", f"{what}: {fmt} has {len(got)} patches, {len(rows)} rows, "
                                f"{len(want)} expected " + (gen.diff(want[0], got[0]) if got and want else ""))
        finally:
            q.kill()

    def simplify(self, plan):
        for i, st in enumerate(plan["steps"]):
            for k in (3, 4):
                if len(st[k]) > (k - 3):
                    c = list(plan["steps"])
                    c[i] = st[:k] + [st[k][:-1]] + st[k + 1:]
                    yield dict(plan, steps=c)
