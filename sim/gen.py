"""Patches and files from small JSON specs, and digests of values for comparison."""
import hashlib

import numpy as np

import dascore as dc

T_BASE = np.datetime64("2020-01-01T00:00:00", "ns")


def make_patch(spec):
    """spec: id, t (ms offset), nt, dt (ms), nd, [order, dtype, tag, station, network, extra, uneven]"""
    if spec.get("special"):
        return special_patch(spec)
    i, nt, nd, dt = spec["id"], spec["nt"], spec["nd"], spec["dt"]
    t0 = T_BASE + np.timedelta64(int(spec["t"] * 1_000_000), "ns")
    step = np.timedelta64(int(dt * 1_000_000), "ns")
    time = t0 + np.arange(nt) * step
    if spec.get("uneven"):
        time = time + (np.arange(nt) % 2) * (step // 4)
    dist = spec.get("d0", 0.0) + np.arange(nd) * spec.get("dd", 1.0)
    dtype = spec.get("dtype", "float64")
    data = (np.arange(nt * nd).reshape(nd, nt) + 1000 * i)
    if dtype == "complex128":
        data = data + 1j * (i + 1)
    elif dtype == "int16":
        data = data % 30000
    data = data.astype(dtype)
    coords = {"distance": dist, "time": time}
    dims = ("distance", "time")
    if spec.get("order") == "td":
        data, dims = np.ascontiguousarray(data.T), ("time", "distance")
    ex = spec.get("extra")
    if ex == "quality":
        coords["quality"] = ("distance", np.arange(nd) * 2 + i)
    elif ex == "latlon":
        coords["latitude"] = ("distance", 40.0 + np.arange(nd) / 10)
        coords["longitude"] = ("distance", -111.0 - np.arange(nd) / 10)
    elif ex == "face":
        coords["face"] = ("time", np.arange(nt)[::-1].copy())
    attrs = dict(tag=spec.get("tag", f"p{i}"), station=spec.get("station", ""),
                 network=spec.get("network", ""), data_type=spec.get("data_type", "strain_rate"),
                 data_units=spec.get("units", "m/s"))
    if spec.get("category"):
        attrs["data_category"] = spec["category"]
    p = dc.Patch(data=data, coords=coords, dims=dims, attrs=attrs)
    if spec.get("cunits", True):
        p = p.set_units(spec.get("units", "m/s"), distance="m", time="s")
    return p


def special_patch(spec):
    """Unusual shapes, dtypes and coordinate kinds, by spec["special"]."""
    k, i = spec["special"], spec["id"]
    n = 4
    t = T_BASE + np.timedelta64(int(spec.get("t", 0)), "ms") + np.arange(n) * np.timedelta64(1, "s")
    d = np.array([0.5, 1.5])
    data = np.arange(2. * n).reshape(2, n) + 100 * i
    coords, dims = {"distance": d, "time": t}, ("distance", "time")
    attrs = dict(tag=spec.get("tag", f"p{i}"), station=spec.get("station", ""), network=spec.get("network", ""))
    if k == "notime":
        data, dims = np.arange(6.).reshape(2, 3) + i, ("distance", "channel")
        coords = {"distance": [1.0, 2.0], "channel": [0, 1, 2]}
    elif k == "nodist":
        data, dims = np.arange(6.).reshape(2, 3) + i, ("channel", "time")
        coords = {"channel": [0, 1], "time": T_BASE + np.arange(3) * np.timedelta64(1, "s")}
    elif k == "1d":
        data, dims, coords = data[0], ("time",), {"time": t}
    elif k == "3d":
        data, dims = np.arange(6. * n).reshape(2, 3, n) + i, ("distance", "channel", "time")
        coords["channel"] = [1, 2, 3]
    elif k == "bool":
        data = data % 2 == 0
    elif k == "complex":
        data = data + 1j * (i + 1)
    elif k == "nan":
        data[0, 1] = np.nan
    elif k == "uneven":
        coords = {"distance": [0., 1.7], "time": t + np.array([0, 1, 5, 70]) * np.timedelta64(1, "ms")}
    elif k == "reverse":
        coords["distance"] = d[::-1].copy()
    elif k == "unsorted":
        coords["distance"] = [5.0, -1.0]
    elif k == "2dcoord":
        coords["q"] = (("distance", "time"), np.arange(2 * n).reshape(2, n) + i)
    elif k == "nodimcoord":
        coords["q"] = ((), np.arange(3) + i)
    elif k == "timedelta":
        coords["time"] = np.arange(n) * np.timedelta64(1_000_000_000, "ns")
    elif k == "len1":
        data, coords = data[:1, :1], {"distance": [1.], "time": t[:1]}
    elif k == "extra":
        attrs.update(foo=f"bar{i}", num=3 + i, fl=2.5)
    elif k == "bigend":
        data = data.astype(">f4")
    elif k == "floattime":
        coords["time"] = np.arange(n) * 0.5
    elif k == "ns":
        coords["time"] = t[0] + np.timedelta64(7, "ns") + np.arange(n) * np.timedelta64(333333333, "ns")
    elif k == "strided":
        data = np.repeat(data, 2, axis=1)[:, ::2]
    elif k == "fortran":
        data = np.asfortranarray(data)
    p = dc.Patch(data=data, dims=dims, coords=coords, attrs=attrs)
    if k == "ftunits":
        p = p.set_units("m/s", distance="ft", time="s")
    elif k == "history":
        p = (p * 2).abs()
    return p


SPECIALS = ("notime", "nodist", "1d", "3d", "bool", "complex", "nan", "uneven", "reverse", "unsorted", "2dcoord",
            "nodimcoord", "timedelta", "len1", "extra", "bigend", "floattime", "ns", "strided", "fortran",
            "ftunits", "history")


def gen_spec(rng, i, **kw):
    """A random spec; kw overrides."""
    s = dict(id=i, t=rng.randrange(0, 40) * 500, nt=rng.choice([2, 3, 5, 8, 12]),
             dt=rng.choice([10, 50, 100, 250]), nd=rng.choice([1, 2, 3, 4, 6]))
    if rng.random() < 0.25:
        s["order"] = "td"
    s["dtype"] = rng.choice(["float64", "float64", "float32", "int32", "int16"])
    r = rng.random()
    if r < 0.12:
        s["extra"] = "quality"
    elif r < 0.2:
        s["extra"] = "latlon"
    s["station"] = rng.choice(["", "sta", "stb"])
    s["network"] = rng.choice(["", "net"])
    s.update(kw)
    return s


# ------------------------------------------------------------------ digests
def arr_digest(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ("obj", a.shape, tuple(str(x) for x in a.ravel()))
    a = a.astype(a.dtype.newbyteorder("="), copy=False)
    if a.dtype.kind in "mM":
        a = a.astype(f"{a.dtype.kind}8[ns]")
    if a.dtype.kind == "f":
        a = np.where(np.isnan(a), np.array(np.nan, a.dtype), a)
    return (str(a.dtype), a.shape, hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest())


_SKIP_ATTRS = {"coords", "history", "dims", "path", "file_format", "file_version"}


def attrs_digest(attrs, skip=()):
    out = {}
    for k, v in attrs.model_dump().items():
        if k in _SKIP_ATTRS or k in skip or k.startswith("_"):
            continue
        if k.split("_")[-1] in ("min", "max", "step") or k.endswith("_units") and k != "data_units":
            continue
        out[k] = _val(v)
    return out


def _val(v):
    if v is None:
        return ""
    if isinstance(v, np.ndarray):
        return arr_digest(v)
    if isinstance(v, (list, tuple)):
        return tuple(_val(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((str(k), _val(x)) for k, x in v.items()))
    if isinstance(v, float) and v != v:
        return "nan"
    return str(v)


def coords_digest(patch):
    out = {}
    cm = patch.coords
    for name in sorted(cm.coord_map):
        c = cm.coord_map[name]
        out[name] = (tuple(cm.dim_map[name]), arr_digest(cm.get_array(name)), str(c.units or ""))
    return out


def digest(patch, skip_attrs=(), history=False):
    """Everything a user can see of a patch, as comparable plain values."""
    d = {"dims": tuple(patch.dims), "shape": tuple(patch.shape), "data": arr_digest(patch.data),
         "coords": coords_digest(patch), "attrs": attrs_digest(patch.attrs, skip_attrs)}
    if history:
        d["history"] = tuple(patch.attrs.history)
    return d


def diff(a, b, path=""):
    """Short description of the first differences between two digests."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                out.append(f"{path}/{k} only in second: {b[k]}")
            elif k not in b:
                out.append(f"{path}/{k} only in first: {a[k]}")
            elif a[k] != b[k]:
                out.append(diff(a[k], b[k], f"{path}/{k}"))
        return "; ".join(out)[:600]
    return f"{path}: {a} != {b}"


def dkey(d):
    return hashlib.md5(repr(sorted(_flat(d))).encode()).hexdigest()[:12]


def _flat(d, p=""):
    if isinstance(d, dict):
        for k, v in d.items():
            yield from _flat(v, f"{p}/{k}")
    else:
        yield f"{p}={d}"
