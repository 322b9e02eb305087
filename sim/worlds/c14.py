"""C14: a growing pool of shared values under random operations, interrupts and read errors; nothing may change.

State measure: (operation, kinds of its values, outcome, interrupt place).
"""
import os

from .. import core, dirs, interrupt, shim
from ..core import Violation, World
from .worlds_specs import patch_spec

POOL = 26
SCRIB = ("data", "array", "coord", "values", "table", "attrs", "asarray", "handed", "maps", "caller")


class WORLD(World):
    prop = "C14"
    quick_runs = 400
    thorough_runs = 20000
    real = ("patches, coordinates, coordinate managers, attributes, spools, processing, units, file reading and writing",)
    stubs = ("interrupts (raised at a chosen line of the library)", "errors of read calls", "clock")
    rule = ("A pool of patches, coordinates, managers, spools (memory, file, directory) and caller arrays, dictionaries, lists and "
            "tables; random operations on random members, results join the pool; operations are interrupted at a chosen line or "
            "have reads fail; handed-out arrays and tables are overwritten where they can be. Every member is compared with "
            "its first digest after every step.")
    assumptions = ("arrays the caller goes on owning and changes himself are outside the property",)

    def setup(self):
        specs = [dict(kind="DASDAE", ext=".h5", cuts=[3], patches=[dict(id=50 + k, t=k * 1000, nt=8, dt=100, nd=3, tag=f"f{k // 2}") for k in range(3)]),
                 dict(kind="PICKLE", ext=".pkl", cuts=[2], patches=[dict(id=60 + k, t=k * 800, nt=8, dt=100, nd=3, tag="pk") for k in range(2)])]
        self.files = [(c["spec"]["ext"], c["versions"][0]["files"][""]) for c in dirs.build_corpus(specs)]

    def in_child(self, plan, ctx):
        dirs.use_run_dir(ctx)

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        from .. import ops
        start = [patch_spec(rng, i) for i in range(rng.randint(2, 4))]
        steps = []
        names = sorted(ops.OPS) + list(INPUT_OPS) * 3
        groups = {k: ops.names(k) for k in ("patch", "spool", "coord", "cm")} | {"input": sorted(INPUT_OPS)}
        focus = rng.sample(names, rng.randint(4, 20)) if rng.random() < 0.5 else names
        files = rng.random() < 0.35
        for _ in range(rng.randint(6, 22 if tier == "quick" else 60)):
            r = rng.random()
            picks = [rng.randrange(1000) for _ in range(3)]
            if r < 0.13:
                steps.append(["scribble", rng.choice(SCRIB), picks, None])
                continue
            name = rng.choice(focus if rng.random() < 0.7 else groups[rng.choice(sorted(groups))])
            params = (INPUT_OPS.get(name) or ops.OPS[name])[1](rng)
            fault = None
            if rng.random() < 0.3:
                fault = [rng.choice(["kbd", "cancel"]), int(10 ** rng.uniform(0, 3))]
            elif rng.random() < (0.3 if files and "spool" in (INPUT_OPS.get(name) or ops.OPS[name])[0] else 0.02):
                fault = ["EIO", rng.randint(1, 12)]
            steps.append([name, params, picks, fault])
        return dict(start=start, steps=steps, files=files, listing=rng.randrange(3))

    # -------------------------------------------------------------- execution
    def execute(self, plan, ctx):
        import numpy as np
        import pandas as pd
        import dascore as dc
        from .. import gen, ops
        self.ops = ops
        self.ctx = ctx
        self.pool = []          # [kind, value, digest, deep, where from]
        for s in plan["start"]:
            self.add(gen.make_patch(s), "start")
        p = self.pool[0][1]
        n = p.shape[0]
        for v in (np.arange(12.).reshape(3, 4), np.arange(4) * 0.5, np.array([3., 1., 2.]), np.arange(24.).reshape(4, 6)[:, ::2]):
            self.add(v, "caller", "arr")
        self.add({"tag": "dict", "station": "x", "li": [1, 2]}, "caller", "dict")
        self.add({"tag": "made", "dims": p.dims, "history": ["by hand"], "coords": {}, "category": "DAS"}, "caller", "adict")
        self.add([e[1] for e in self.pool if e[0] == "patch"], "caller", "list")
        self.add(pd.DataFrame({"distance": np.arange(n) * 1.0, "xx": np.arange(n) * 3.0}), "caller", "df")
        c = self.pool[0][1].coords
        self.add({n: c.coord_map[n] for n in c.dims[:1]}, "caller", "cdict")
        self.add(dc.utils.patch.patches_to_df([e[1] for e in self.pool if e[0] == "patch"][:2]), "caller", "pdf")
        if plan["files"]:
            d = os.path.join(ctx.root, "data")
            os.makedirs(d)
            for k, (ext, blob) in enumerate(self.files):
                with open(os.path.join(d, f"a{k}{ext}"), "wb") as f:
                    f.write(blob)
            shim.root(d)
            self.add(dc.spool(os.path.join(d, "a0.h5")), "file")
            sp = dc.spool(d).update(progress=None)
            self.add(sp, "directory")
            self.add(sp.get_contents(), "contents of directory")
        for i, st in enumerate(plan["steps"]):
            self.step(st)
            self.check(st, deep=i % 4 == 3 or bool(st[3]))
        self.check(["end"], deep=True)

    def add(self, v, where, kind=None):
        kind = kind or self.ops.classify(v)
        slow = kind == "spool" and type(v).__name__ != "MemorySpool"
        if kind == "patch" and v.size > 3000 or kind == "coord" and len(v) > 3000:
            return
        if kind == "spool" and len(v) > 8:
            return
        st, d = self.try_digest(v)
        if st == "err":
            # must stay as unusable as it is; nothing to compare
            return
        self.pool.append([kind, v, d, slow, where])
        if len(self.pool) > POOL:
            # the oldest results go, the values of the start stay
            for i, e in enumerate(self.pool):
                if e[4] not in ("start", "caller", "file", "directory"):
                    del self.pool[i]
                    break

    def try_digest(self, v):
        try:
            return "ok", self.ops.digest(v)
        except Exception as e:  # noqa: BLE001
            return "err", f"{type(e).__name__}: {e}"

    def check(self, st, deep):
        for kind, v, d, slow, where in self.pool:
            if slow and not deep:
                continue
            s, now = self.try_digest(v)
            if s == "err":
                raise Violation("became-unusable", f"a {kind} ({where}) after {st[:2]} fault {st[-1]}: {now}")
            if now != d:
                raise Violation("changed", f"a {kind} ({where}) changed by {st[:2]} fault {st[-1]}: {self.short(d, now)}")

    def short(self, a, b):
        from .. import gen
        if isinstance(a, dict):
            return gen.diff(a, b)
        for x, y in zip(a, b):
            if x != y:
                return f"{str(x)[:300]} -> {str(y)[:300]}"
        return f"{str(a)[:200]} -> {str(b)[:200]}"

    def step(self, st):
        name, params, picks, fault = st
        ctx = self.ctx
        if name == "scribble":
            self.scribble(params, picks)
            return
        kinds, _, fn = INPUT_OPS.get(name) or self.ops.OPS[name]
        kinds = kinds.split() if isinstance(kinds, str) else kinds
        vals = []
        for k, i in zip(kinds, picks):
            c = [e for e in self.pool if e[0] == k]
            if not c:
                return
            vals.append(c[i % len(c)][1])
        import copy
        frule = None
        if fault and fault[0] == "EIO":
            shim.reset()
            shim.clear()
            frule = shim.rule(shim.READ | shim.OPEN, shim.ERR, nth=fault[1], arg=5)
            nth, kind = None, "kbd"
        elif fault:
            kind, nth = fault
        try:
            if fault and frule is None:
                out, v, _ = interrupt.call(lambda: fn(*vals, copy.deepcopy(params)), nth, kind)
            else:
                try:
                    out, v = "ok", fn(*vals, copy.deepcopy(params))
                except Exception as e:  # noqa: BLE001
                    out, v = "err", e
        finally:
            if frule is not None:
                ctx.fault("read error", shim.fired(frule))
                shim.clear()
        if out == "interrupted":
            ctx.fault("interrupt")
        if out == "ok":
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                k = self.ops.classify(x)
                if k != "other":
                    self.add(x, name)
                elif type(x).__module__.startswith(("numpy", "pandas")) and hasattr(x, "shape") and x.size < 3000 and x.shape:
                    self.add(x, name, "handed")
        ctx.state(name, kinds, out, v if out == "interrupted" else type(v).__name__)
        ctx.log(name, params, out, len(self.pool))

    # -------------------------------------------------------------- changing what was handed out
    def scribble(self, how, picks):
        import numpy as np
        ctx = self.ctx
        done = 0
        kind = {"data": "patch", "array": "patch", "asarray": "patch", "attrs": "patch", "coord": "coord", "values": "coord",
                "table": "spool", "handed": "handed", "maps": "cm", "caller": ("list", "dict", "df", "cdict", "pdf", "adict")[picks[1] % 6]}[how]
        c = [e for e in self.pool if e[0] == kind]
        if not c:
            return
        e = c[picks[0] % len(c)]
        v = e[1]
        if how == "data":
            done += self.overwrite(v.data)
        elif how == "asarray":
            done += self.overwrite(np.asarray(v))
        elif how == "array":
            names = sorted(v.coords.coord_map)
            n = names[picks[1] % len(names)]
            done += self.overwrite(v.get_array(n)) + self.overwrite(v.coords.get_array(n)) + self.overwrite(v.coords[n])
        elif how in ("coord", "values"):
            try:
                done += self.overwrite(v.data) + self.overwrite(v.values) + self.overwrite(np.asarray(v))
            except (ValueError, TypeError):
                pass
        elif how == "table":
            done += self.overwrite(v.get_contents())
        elif how == "handed":
            self.pool = [x for x in self.pool if x[1] is not v]
            done += self.overwrite(v)
        elif how == "caller":           # the caller goes on using his list, dictionary or table
            import copy
            mine = copy.copy(v)
            e[1] = mine
            if isinstance(v, list) or isinstance(v, dict):
                v.clear()
                done += 1
            else:
                done += self.overwrite(v)
        elif how == "attrs":
            d = v.attrs.model_dump()
            for x in list(d.values()):
                done += self.overwrite(x)
            for k, x in v.attrs.items():
                done += self.overwrite(x)
            d.clear()
            for x in v.coords.coord_shapes, v.attrs.flat_dump(), v.coords.to_summary_dict():
                done += self.overwrite(x)
        elif how == "maps":
            for x in (v.coord_map, v.dim_map, v.coord_shapes, v.dim_to_coord_map, v.get_coord_tuple_map(), v.to_summary_dict()):
                done += self.overwrite(x)
        ctx.state("scribble", how, e[4], done)
        ctx.log("scribble", how, e[4], done)
        ctx.probe("overwritten", done)

    def overwrite(self, x):
        """Change it in place if that is possible at all."""
        import numpy as np
        import pandas as pd
        try:
            if isinstance(x, pd.DataFrame):
                n = 0
                for col in list(x.columns):
                    if len(x) and x[col].dtype == object or str(x[col].dtype) == "str":
                        x[col] = "overwritten"
                        n = 1
                x["more"] = 1
                x.drop(index=x.index[:1], inplace=True)
                for col in list(x.columns)[:2]:
                    del x[col]
                return 1
            if isinstance(x, np.ndarray):
                if not x.flags.writeable or not x.size:
                    return 0
                x[...] = np.zeros(1).astype(x.dtype)[0] if x.dtype != object else None
                return 1
            if isinstance(x, dict):
                x.clear()
                return 1
            if isinstance(x, list):
                x.append("overwritten")
                return 1
            if hasattr(x, "__setitem__"):
                x["overwritten"] = 1
                return 1
        except (ValueError, TypeError, AttributeError, KeyError):
            return 0
        return 0

    def simplify(self, plan):
        if plan["files"]:
            yield dict(plan, files=False)
        if len(plan["start"]) > 1:
            yield dict(plan, start=plan["start"][:1])
        for k, st in enumerate(plan["steps"]):
            if st[3]:
                yield dict(plan, steps=plan["steps"][:k] + [st[:3] + [None]] + plan["steps"][k + 1:])


def _lazy(text):
    """An operation written as an expression of its values, its parameters a and the library."""
    code = compile(text, "<op>", "eval")

    def fn(*vals):
        import dascore as dc
        import numpy as np
        from dascore.core.coordmanager import get_coord_manager
        return eval(code, {"dc": dc, "np": np, "gcm": get_coord_manager, "x": vals[0], "y": vals[1] if len(vals) > 2 else None, "a": vals[-1]})
    return fn


_none = (lambda r: None)
INPUT_OPS = {
    "i_patch": ("arr", _none, _lazy("dc.Patch(data=x, dims=('q', 'w')[:x.ndim], coords={k: np.arange(n) * 1. for k, n in zip('qw', x.shape)})")),
    "i_patch_attrs": ("arr dict", _none, _lazy("dc.Patch(data=x, dims=('distance', 'time')[:x.ndim], attrs=y, coords={k: np.arange(n) * 1. for k, n in zip(('distance', 'time'), x.shape)})")),
    "i_coord": ("arr", _none, _lazy("dc.core.get_coord(data=x)")),
    "i_coord_vals": ("arr", _none, _lazy("dc.core.get_coord(values=x, units='m')")),
    "i_cm": ("arr", _none, _lazy("gcm({'a': x[:, 0] if x.ndim > 1 else x}, dims=('a',))")),
    "i_update": ("patch arr", _none, _lazy("x.update(data=y)")),
    "i_update_own": ("patch", _none, _lazy("x.update(data=np.array(x.data))")),
    "i_new_coord": ("patch arr", _none, _lazy("x.update_coords(own=(x.dims[0], np.resize(y, x.shape[0])))")),
    "i_set_coord": ("patch arr", _none, _lazy("x.update_coords(**{x.dims[0]: y})")),
    "i_select": ("patch arr", _none, _lazy("x.select(**{x.dims[0]: y})")),
    "i_where": ("patch", _none, _lazy("x.where(np.ones(x.shape, dtype=bool), other=np.zeros(x.shape))")),
    "i_attrs": ("patch dict", _none, _lazy("x.update_attrs(**y)")),
    "i_new_attrs": ("patch dict", _none, _lazy("x.new(attrs=y)")),
    "i_spool_list": ("list", _none, _lazy("dc.spool(x)")),
    "i_spool_mask": ("spool arr", _none, _lazy("x[np.resize(y, len(x)).astype(int) % max(len(x), 1)]")),
    "i_df": ("patch df", lambda r: r.random() < 0.5, _lazy("x.coords_from_df(y, extrapolate=a)")),
    "i_df_units": ("patch df", _none, _lazy("x.coords_from_df(y, units={'xx': 'ft'})")),
    "i_concat": ("list", _none, _lazy("dc.utils.patch.concatenate_patches(x, time=None)")),
    "i_stack": ("list", _none, _lazy("dc.utils.patch.stack_patches(x, check_behavior=None)")),
    "i_memory": ("pdf", _none, _lazy("dc.core.spool.MemorySpool(x)")),
    "i_cm_dict": ("cdict", _none, _lazy("gcm(x, dims=tuple(x))")),
    "i_cm_raw": ("cdict", _none, _lazy("dc.core.coordmanager.CoordManager(coord_map=x, dims=tuple(x), dim_map={k: (k,) for k in x})")),
    "i_patch_dict": ("cdict", _none, _lazy("dc.Patch(data=np.zeros([len(c) for c in x.values()]), coords=x, dims=tuple(x))")),
    "i_update_dict": ("patch cdict", _none, _lazy("x.update_coords(**y)")),
    "i_scan": ("list", _none, _lazy("dc.scan_to_df(x)")),
    "i_cm_coord": ("coord", _none, _lazy("gcm({'a': x}, dims=('a',))")),
    "i_cm_patch": ("patch cm", _none, _lazy("x.new(coords=y)")),
    "i_attrs_class": ("dict", _none, _lazy("dc.PatchAttrs(**y)")),
    "i_from_dict": ("dict", _none, _lazy("dc.PatchAttrs.from_dict(x)")),
    "i_from_adict": ("adict", _none, _lazy("dc.PatchAttrs.from_dict(x)")),
    "i_made": ("patch adict", lambda r: r.random() < 0.5, _lazy("dc.Patch(data=np.array(x.data), dims=x.dims, coords=x.coords if a else {k: x.get_array(k) for k in x.dims}, attrs=y)")),
    "i_new_adict": ("patch adict", _none, _lazy("x.new(attrs=y)")),
    "i_attrs_adict": ("patch adict", _none, _lazy("x.update_attrs(**y)")),
    "i_add_arr": ("patch arr", _none, _lazy("x + y")),
    "i_radd": ("patch arr", _none, _lazy("y * x")),
    "i_tau": ("patch arr", _none, _lazy("x.tau_p(np.abs(y.ravel()[:2]) + 100)")),
    "i_interp": ("patch arr", _none, _lazy("x.interpolate(distance=y)")),
    "i_slope": ("patch", _none, _lazy("x.slope_filter(np.array([1., 2., 30., 40.]))")),
    "i_to_dt": ("arr", _none, _lazy("dc.to_datetime64(x)")),
    "i_to_td": ("arr", _none, _lazy("dc.to_timedelta64(x)")),
    "i_convert": ("arr", _none, _lazy("dc.units.convert_units(x, 'ft', 'm')")),
    "i_write": ("patch", lambda r: r.choice(["dasdae", "pickle"]), _lazy("x.io.write('w_' + a, a) and dc.read('w_' + a)[0]")),
    "i_write_spool": ("spool", _none, _lazy("dc.write(x, 'ws.h5', 'dasdae')")),
}
