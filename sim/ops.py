"""Operations of the library with generated arguments, and digests of whatever they return.

An operation is (kinds of the values it takes, generator of its JSON parameters, function).
"""
import numpy as np

import dascore as dc

from . import gen

OPS = {}


def op(name, kinds="patch", g=lambda r: None):
    def deco(fn):
        OPS[name] = (tuple(kinds.split()), g, fn)
        return fn
    return deco


def simple(name, fn, g=lambda r: None, kinds="patch"):
    OPS[name] = (tuple(kinds.split()), g, fn)


DIMS = ("time", "time", "distance", "distance", "nodim")


def dim(r):
    return r.choice(DIMS)


def frac(r):
    a, b = sorted((r.randint(-2, 12) / 10, r.randint(-2, 12) / 10))
    return [a, b]


def span(p, d, ab):
    """A value range at fractions of a coordinate."""
    c = p.get_coord(d)
    lo, hi = c.min(), c.max()
    w = hi - lo
    out = []
    for f in ab:
        if isinstance(w, np.timedelta64):
            out.append(lo + np.timedelta64(int(w.astype("timedelta64[ns]").astype(np.int64) * f), "ns"))
        else:
            out.append(lo + w * f)
    return tuple(out)


def length(p, d, f):
    """A length along a coordinate as a fraction of its range."""
    c = p.get_coord(d)
    w = c.max() - c.min()
    if isinstance(w, np.timedelta64):
        return np.timedelta64(int(w.astype("timedelta64[ns]").astype(np.int64) * f), "ns")
    return w * f


# ---------------------------------------------------------------- patches: reductions and element-wise
for _m in ("min", "max", "mean", "median", "std", "first", "last", "sum", "any", "all"):
    simple(_m, lambda p, a, m=_m: getattr(p, m)(a[0], dim_reduce=a[1]),
           lambda r: [r.choice([dim(r), None, ["time", "distance"]]), r.choice(["empty", "squeeze", "mean", "first"])])
for _m in ("abs", "conj", "real", "imag", "angle", "exp", "log", "log10", "log2", "is_finite", "isnan", "isinf",
           "drop_private_coords", "simplify_units"):
    simple(_m, lambda p, a, m=_m: getattr(p, m)())
for _m in ("add", "subtract", "multiply", "divide", "maximum", "minimum"):
    simple(_m, lambda p, a, m=_m: getattr(p, m)(a), lambda r: r.choice([0, 1, 2.5, -3, 1e300]))
    simple(_m + "2", lambda p, q, a, m=_m: getattr(p, m)(q), kinds="patch patch")
for _m in ("__add__", "__sub__", "__mul__", "__truediv__", "__pow__", "__mod__", "__rsub__", "__gt__", "__floordiv__"):
    simple(_m, lambda p, a, m=_m: getattr(p, m)(a), lambda r: r.choice([0, 1, 2, 0.5, -1]))
simple("quantity_add", lambda p, a: p + dc.get_quantity(a), lambda r: r.choice(["1 m/s", "3 km/s", "2 s", "10 ft/s"]))
simple("numpy_sin", lambda p, a: np.sin(p))
simple("numpy_add_reduce", lambda p, a: np.add.reduce(p, axis=a), lambda r: r.choice([0, 1]))
simple("numpy_mean", lambda p, a: np.mean(p, axis=a), lambda r: r.choice([0, 1]))
simple("normalize", lambda p, a: p.normalize(a[0], norm=a[1]), lambda r: [dim(r), r.choice(["l1", "l2", "max", "bit"])])
simple("standardize", lambda p, a: p.standardize(a), dim)
simple("dropna", lambda p, a: p.dropna(*a), lambda r: [dim(r), r.choice(["any", "all"])])
simple("fillna", lambda p, a: p.fillna(a), lambda r: r.choice([0, 1.5]))
simple("full", lambda p, a: p.full(a), lambda r: r.choice([0, 7]))
simple("demean", lambda p, a: p.demean(a), dim)
simple("demedian", lambda p, a: p.demedian(a), dim)
simple("detrend", lambda p, a: p.detrend(*a), lambda r: [dim(r), r.choice(["linear", "constant"])])
simple("where", lambda p, a: p.where(p.data > a[0], other=a[1]), lambda r: [r.choice([3, 1000]), r.choice([0, -1.5])])
simple("where_patch", lambda p, q, a: p.where(p > 5, other=q), kinds="patch patch")
simple("pad", lambda p, a: p.pad(**{a[0]: a[1]}, samples=True, constant_values=a[2], expand_coords=a[3]),
       lambda r: [dim(r), r.choice([1, 2]), r.choice([0, 1]), r.choice([True, False])])
simple("roll", lambda p, a: p.roll(samples=True, update_coord=a[2], **{a[0]: a[1]}), lambda r: [dim(r), r.randint(-3, 5), r.random() < 0.5])
simple("flip", lambda p, a: p.flip(a[0], flip_coords=a[1]), lambda r: [dim(r), r.random() < 0.5])
simple("T", lambda p, a: p.T)
simple("transpose", lambda p, a: p.transpose(*a), lambda r: r.choice([["time", "distance"], ["distance", "time"], [], ["x"]]))
simple("squeeze", lambda p, a: p.squeeze(a), lambda r: r.choice([None, "distance", "time"]))
simple("append_dims", lambda p, a: p.append_dims(**a), lambda r: r.choice([{"face": 1}, {"face": 3}, {"face": [1, 2]}]))
simple("make_broadcastable", lambda p, a: p.make_broadcastable_to(tuple(a)), lambda r: r.choice([[1, 1], [3, 1, 4]]))

# ---------------------------------------------------------------- selection, coordinates
simple("select", lambda p, a: p.select(copy=a[2], **{a[0]: span(p, a[0], a[1])}), lambda r: [dim(r), frac(r), r.random() < 0.3])
simple("select_open", lambda p, a: p.select(**{a[0]: (span(p, a[0], a[1])[0], ...)}), lambda r: [dim(r), frac(r)])
simple("select_samples", lambda p, a: p.select(samples=True, **{a[0]: tuple(a[1])}), lambda r: [dim(r), [r.randint(-5, 2), r.randint(1, 8)]])
simple("select_relative", lambda p, a: p.select(relative=True, **{a[0]: tuple(a[1])}), lambda r: [dim(r), r.choice([[0, 0.2], [0.1, -0.1], [-1, None]])])
simple("select_units", lambda p, a: p.select(distance=(a[0] * dc.get_quantity(a[1]), a[2] * dc.get_quantity(a[1]))),
       lambda r: [r.randint(0, 2), r.choice(["ft", "m", "km", "s"]), r.randint(2, 9)])
simple("select_array", lambda p, a: p.select(samples=True, **{a[0]: np.array(a[1])}), lambda r: [dim(r), r.choice([[0], [0, 2], [1, 1, 0], [99]])])
simple("order", lambda p, a: p.order(samples=True, **{a[0]: np.array(a[1])}), lambda r: [dim(r), r.choice([[0], [2, 0], [1, 1]])])
simple("iselect", lambda p, a: p.iselect(**{a[0]: slice(*a[1])}), lambda r: [dim(r), [0, 2]])
simple("sort_coords", lambda p, a: p.sort_coords(a[0], reverse=a[1]), lambda r: [r.choice(["time", "distance", "quality", "zz"]), r.random() < 0.5])
simple("snap_coords", lambda p, a: p.snap_coords(a[0], reverse=a[1]), lambda r: [dim(r), r.random() < 0.3])
simple("rename_coords", lambda p, a: p.rename_coords(**{a[0]: a[1]}), lambda r: [dim(r), r.choice(["foo", "time", "money"])])
simple("drop_coords", lambda p, a: p.drop_coords(a), lambda r: r.choice(["quality", "latitude", "time"]))
simple("set_dims", lambda p, a: p.set_dims(**{a[0]: a[1]}), lambda r: [dim(r), r.choice(["quality", "face", "latitude"])])
simple("update_coords", lambda p, a: p.update_coords(**{a[0]: p.get_array(a[1])[::-1] if a[2] else p.get_array(a[1])}),
       lambda r: [dim(r), dim(r), r.random() < 0.5])
simple("update_coords_min", lambda p, a: p.update_coords(**{a[0] + a[1]: a[2]}),
       lambda r: [dim(r), r.choice(["_min", "_max", "_step"]), r.choice([1, 2.5, "2017-01-01"])])
simple("new_coord", lambda p, a: p.update_coords(zz=(a, np.arange(p.coord_shapes[a][0]) * 2.0)), dim)
simple("align", lambda p, a: p.update_coords(shift=("distance", np.arange(p.coord_shapes["distance"][0]))).align_to_coord(
    time="shift", samples=True, mode=a[0], reverse=a[1]), lambda r: [r.choice(["full", "valid", "same"]), r.random() < 0.3])
simple("get_coord", lambda p, a: p.get_coord(a), lambda r: r.choice(["time", "distance", "quality", "nope"]))
simple("get_array", lambda p, a: p.get_array(a), lambda r: r.choice([None, "time", "distance", "quality"]))
simple("get_cm", lambda p, a: p.coords)
simple("get_attrs", lambda p, a: p.attrs)
simple("coord_range", lambda p, a: p.coords.coord_range(a), dim)
simple("summary", lambda p, a: p.coords.to_summary_dict())
simple("get_axis", lambda p, a: p.get_axis(a), dim)
simple("patch_name", lambda p, a: p.get_patch_name())
simple("str", lambda p, a: str(p))
simple("seconds", lambda p, a: (p.seconds, p.channel_count, p.ndim, p.size))
simple("dump", lambda p, a: {k: str(v) for k, v in p.attrs.flat_dump().items()})
simple("check_coords", lambda p, a: p.check_coords(**a), lambda r: r.choice([{}, {"dims": "time"}]))
simple("check_attrs", lambda p, a: p.check_attrs(a), lambda r: r.choice([["tag"], ["bogus"]]))
simple("coords_from_df", lambda p, a: p.coords_from_df(frame(p, a)), lambda r: r.choice([1, 3]))
simple("add_distance_to", lambda p, a: p.update_coords(x=("distance", np.arange(p.coord_shapes["distance"][0]) * 1.0)).add_distance_to(
    __import__("pandas").Series({"x": a})), lambda r: r.randint(0, 3))


def frame(p, a):
    import pandas as pd
    d = p.get_array("distance")
    return pd.DataFrame({"distance": d, "xx": np.arange(len(d)) * a})


# ---------------------------------------------------------------- attributes, units, comparison
simple("update_attrs", lambda p, a: p.update_attrs(**a), lambda r: r.choice(
    [{"tag": "new"}, {"station": "zz", "num": 3}, {"time_min": "2000-01-01"}, {"distance_step": 2}, {"history": ["x"]}, {"coords": 3}, {"li": [1, 2]}]))
simple("set_units", lambda p, a: p.set_units(**a), lambda r: r.choice(
    [{"data_units": "m"}, {"distance": "ft"}, {"time": "s", "data_units": "strain"}, {"data_units": "bogus_unit"}, {"distance": None}]))
simple("convert_units", lambda p, a: p.convert_units(**a), lambda r: r.choice(
    [{"data_units": "ft/s"}, {"distance": "ft"}, {"distance": "s"}, {"time": "ms"}, {"data_units": "km/s", "distance": "km"}]))
simple("equals", lambda p, q, a: p.equals(q, close=a), lambda r: r.random() < 0.5, kinds="patch patch")
simple("eq", lambda p, q, a: p == q, kinds="patch patch")
simple("update", lambda p, a: p.update(data=p.data * a), lambda r: r.choice([1, 2]))
simple("update_shape", lambda p, a: p.update(data=p.data[:1]))
simple("new_attrs", lambda p, a: p.new(attrs=dict(p.attrs, tag=a)), lambda r: r.choice(["a", "b"]))
simple("new_dims", lambda p, a: p.new(dims=tuple(d + "_" for d in p.dims)))
simple("rebuild", lambda p, a: dc.Patch(data=p.data, coords=p.coords, dims=p.dims, attrs=p.attrs))
simple("rebuild_dict", lambda p, a: dc.Patch(data=p.data, coords={k: (p.coords.dim_map[k], p.get_array(k)) for k in p.coords.coord_map},
                                             dims=p.dims, attrs={"tag": a}), lambda r: r.choice(["a", "b"]))
simple("pickle", lambda p, a: __import__("pickle").loads(__import__("pickle").dumps(p)))
simple("deepcopy", lambda p, a: __import__("copy").deepcopy(p))
simple("copy", lambda p, a: __import__("copy").copy(p))
simple("apply_ufunc", lambda p, a: p.apply_ufunc(np.negative))
simple("pipe", lambda p, a: p.pipe(lambda x, k: x.update_attrs(tag=k), a), lambda r: r.choice(["q", "w"]))

# ---------------------------------------------------------------- filters and transforms
simple("correlate", lambda p, a: p.correlate(samples=True, **a),
       lambda r: {"distance": r.choice([0, 1, 99])})
simple("correlate_shift", lambda p, a: p.dft("time").correlate(samples=True, distance=0).idft("time"))
simple("pass_filter", lambda p, a: p.pass_filter(corners=a[1], zerophase=a[2], **{a[0]: tuple(a[3])}),
       lambda r: [dim(r), r.choice([2, 4]), r.random() < 0.5, r.choice([[None, 2], [0.1, None], [0.1, 3], [3, 0.1], [None, None]])])
simple("notch_filter", lambda p, a: p.notch_filter(q=5, **{a[0]: a[1]}), lambda r: [dim(r), r.choice([0.1, 1.0, 1000])])
for _m in ("median_filter", "gaussian_filter", "hampel_filter", "wiener_filter"):
    simple(_m, lambda p, a, m=_m: getattr(p, m)(samples=True, **a), lambda r: r.choice([{"time": 3}, {"distance": 3}, {"time": 3, "distance": 3}, {"time": 999}, {"zz": 1}]))
simple("savgol_filter", lambda p, a: p.savgol_filter(polyorder=1, samples=True, **a), lambda r: r.choice([{"time": 3}, {"distance": 3}]))
simple("sobel_filter", lambda p, a: p.sobel_filter(*a), lambda r: [dim(r), r.choice(["reflect", "nearest", "bogus"])])
simple("slope_filter", lambda p, a: p.slope_filter(np.array(a[0]), directional=a[1], notch=a[2]), lambda r: [[0.5, 1, 20, 40], r.random() < 0.5, r.random() < 0.5])
simple("slope_mute", lambda p, a: p.slope_mute(tuple(a)), lambda r: r.choice([[1, 5], [5, 1]]))
simple("line_mute", lambda p, a: p.line_mute(**{a[0]: (length(p, a[0], 0.2), length(p, a[0], 0.5))}), lambda r: [dim(r)])
simple("decimate", lambda p, a: p.decimate(filter_type=a[1], copy=a[2], **{a[0]: 2}), lambda r: [dim(r), r.choice(["iir", "fir", None]), r.random() < 0.5])
simple("resample", lambda p, a: p.resample(samples=True, **{a[0]: a[1]}), lambda r: [dim(r), r.choice([4, 11])])
simple("interpolate", lambda p, a: p.interpolate(**{a: p.get_array(a)[:-1]}), dim)
simple("iresample", lambda p, a: p.iresample(**{a: 5}), dim)
simple("rolling", lambda p, a: getattr(p.rolling(samples=True, engine=a[2], center=a[3], **{a[0]: 3}), a[1])(),
       lambda r: [dim(r), r.choice(["mean", "sum", "min", "std", "median"]), r.choice(["numpy", "pandas", None]), r.random() < 0.3])
simple("rolling_apply", lambda p, a: p.rolling(samples=True, **{a: 2}).apply(np.sum), dim)
simple("taper", lambda p, a: p.taper(window_type=a[1], **{a[0]: a[2]}), lambda r: [dim(r), r.choice(["hann", "cos", "bogus"]), r.choice([0.1, 0.4, [0.1, None]])])
simple("taper_range", lambda p, a: p.taper_range(samples=True, invert=a[1], **{a[0]: (0, 1, 2, 3)}), lambda r: [dim(r), r.random() < 0.5])
simple("whiten", lambda p, a: p.whiten(**a), lambda r: r.choice([{}, {"time": [0.5, 2]}, {"smooth_size": 1}]))
simple("differentiate", lambda p, a: p.differentiate(a[0], order=a[1]), lambda r: [r.choice([dim(r), None]), 2])
simple("integrate", lambda p, a: p.integrate(a[0], definite=a[1]), lambda r: [r.choice([dim(r), None]), r.random() < 0.5])
simple("dft", lambda p, a: p.dft(a[0], real=a[1], pad=a[2]), lambda r: [r.choice([dim(r), None]), r.choice([None, "time", True]), r.random() < 0.5])
simple("dft_idft", lambda p, a: p.dft(a).idft(), dim)
simple("rfft", lambda p, a: p.rfft(a), dim)
simple("stft", lambda p, a: p.stft(samples=True, overlap=1, **{a: 4}), dim)
simple("stft_istft", lambda p, a: p.stft(samples=True, overlap=2, **{a: 4}).istft(), dim)
simple("spectrogram", lambda p, a: p.spectrogram(a), dim)
simple("hilbert", lambda p, a: p.hilbert(a), dim)
simple("envelope", lambda p, a: p.envelope(a), dim)
simple("pws", lambda p, a: p.phase_weighted_stack(a), dim)
simple("kurtosis", lambda p, a: p.kurtosis(samples=True, time=3))
simple("stalta", lambda p, a: p.stalta(samples=True, time=(2, 5)))
simple("fbe", lambda p, a: p.fbe(window=0.3, time=(0.5, 2)))
simple("correlate_dft", lambda p, a: p.dft("time", pad=False).correlate(samples=True, distance=0).correlate_shift("time"))
simple("strain_rate", lambda p, a: p.update_attrs(data_type="velocity").velocity_to_strain_rate(step_multiple=a), lambda r: r.choice([1, 2, 4]))
simple("strain_rate_el", lambda p, a: p.update_attrs(data_type="velocity").velocity_to_strain_rate_edgeless(step_multiple=a), lambda r: r.choice([1, 2]))
simple("radians", lambda p, a: p.update_attrs(data_units="radians").radians_to_strain(gauge_length=a), lambda r: r.choice([1, 10]))
simple("dispersion", lambda p, a: p.dispersion_phase_shift(np.array([100., 200., 300.])))
simple("tau_p", lambda p, a: p.tau_p(np.array([100., 200.])))

# ---------------------------------------------------------------- coordinates and managers
simple("c_select", lambda c, a: c.select((c.min() + (c.max() - c.min()) * a[0], None))[0], lambda r: [r.choice([0, 1])], "coord")
simple("c_index", lambda c, a: c[a], lambda r: r.randint(0, 4), "coord")
simple("c_slice", lambda c, a: c[slice(*a)], lambda r: r.choice([[0, 2], [None, None, 2], [3, 1], [None, None, -1]]), "coord")
simple("c_sort", lambda c, a: c.sort(reverse=a)[0], lambda r: r.random() < 0.5, "coord")
simple("c_snap", lambda c, a: c.snap(), kinds="coord")
simple("c_units", lambda c, a: c.set_units(a), lambda r: r.choice(["m", "ft", "s", None, "bogus"]), "coord")
simple("c_convert", lambda c, a: c.convert_units(a), lambda r: r.choice(["m", "ft", "s", "ms"]), "coord")
simple("c_simplify", lambda c, a: c.simplify_units(), kinds="coord")
simple("c_limits", lambda c, a: c.update_limits(**{a[0]: a[1]}), lambda r: [r.choice(["min", "max", "step"]), r.choice([1, 3])], "coord")
simple("c_data", lambda c, a: c.update_data(np.asarray(c.data)[::-1]), kinds="coord")
simple("c_length", lambda c, a: c.change_length(a), lambda r: r.choice([1, 3, 9]), "coord")
simple("c_empty", lambda c, a: c.empty(), kinds="coord")
simple("c_reduce", lambda c, a: c.reduce_coord(a), lambda r: r.choice(["empty", "squeeze", "mean", "max"]), "coord")
simple("c_next", lambda c, a: c.get_next_index(c.min()), kinds="coord")
simple("c_count", lambda c, a: c.get_sample_count(a, samples=True), lambda r: r.choice([1, 3]), "coord")
simple("c_range", lambda c, a: c.coord_range(), kinds="coord")
simple("c_str", lambda c, a: str(c), kinds="coord")
simple("c_array", lambda c, a: c.data, kinds="coord")
simple("c_new", lambda c, a: c.new(units=a), lambda r: r.choice(["m", "s"]), "coord")
simple("c_summary", lambda c, a: c.to_summary().to_coord(), kinds="coord")
simple("c_align", lambda c, d, a: c.align_to(d)[0], kinds="coord coord")
simple("c_eq", lambda c, d, a: (c == d, c.approx_equal(d)), kinds="coord coord")
simple("c_into", lambda p, c, a: p.update_coords(time=c), kinds="patch coord")
simple("c_get", lambda c, a: dc.core.get_coord(data=np.asarray(c.data), units=a), lambda r: r.choice(["m", None]), "coord")
simple("c_pickle", lambda c, a: __import__("pickle").loads(__import__("pickle").dumps(c)), kinds="coord")
simple("m_update", lambda m, a: m.update(**{a: None}), lambda r: r.choice(["quality", "time", "latitude"]), "cm")
simple("m_select", lambda m, a: m.select(**{a: (m.min(a), m.min(a))})[0], dim, "cm")
simple("m_sort", lambda m, a: m.sort(a)[0], dim, "cm")
simple("m_snap", lambda m, a: m.snap(a)[0], dim, "cm")
simple("m_rename", lambda m, a: m.rename_coord(**{a: "zzz"}), dim, "cm")
simple("m_drop", lambda m, a: m.drop_coords(a)[0], dim, "cm")
simple("m_transpose", lambda m, a: m.transpose(), kinds="cm")
simple("m_squeeze", lambda m, a: m.squeeze(), kinds="cm")
simple("m_decimate", lambda m, a: m.decimate(**{a: 2})[0], dim, "cm")
simple("m_flip", lambda m, a: m.flip(a), dim, "cm")
simple("m_units", lambda m, a: m.set_units(distance="ft"), kinds="cm")
simple("m_disassociate", lambda m, a: m.disassociate_coord(a), lambda r: r.choice(["time", "quality"]), "cm")
simple("m_attrs", lambda m, a: m.update_from_attrs(a)[0], lambda r: r.choice([{"time_min": 3}, {"distance_step": 3}]), "cm")
simple("m_get", lambda m, a: m.get_coord(a), dim, "cm")
simple("m_tuple", lambda m, a: sorted(m.get_coord_tuple_map()), kinds="cm")
simple("m_str", lambda m, a: str(m), kinds="cm")
simple("m_equals", lambda m, n, a: m.equals(n), kinds="cm cm")
simple("m_merge", lambda m, n, a: dc.core.coordmanager.merge_coord_managers([m, n], dim="time"), kinds="cm cm") \
    if hasattr(dc.core.coordmanager, "merge_coord_managers") else None

# ---------------------------------------------------------------- spools
simple("spool", lambda p, a: dc.spool(p))
simple("spool2", lambda p, q, a: dc.spool([p, q]), kinds="patch patch")
simple("spool3", lambda p, q, s, a: dc.spool([p, q, s]), kinds="patch patch patch")
simple("s_get", lambda s, a: s[a], lambda r: r.choice([0, 1, -1, 7]), "spool")
simple("s_slice", lambda s, a: s[slice(*a)], lambda r: r.choice([[0, 1], [1, None], [None, None, -1]]), "spool")
simple("s_mask", lambda s, a: s[np.arange(len(s)) % 2 == a], lambda r: r.choice([0, 1]), "spool")
simple("s_order", lambda s, a: s[np.arange(len(s))[::-1]], kinds="spool")
simple("s_iter", lambda s, a: [x for x in s], kinds="spool")
simple("s_len", lambda s, a: len(s), kinds="spool")
simple("s_contents", lambda s, a: s.get_contents(), kinds="spool")
simple("s_select_tag", lambda s, a: s.select(tag=a), lambda r: r.choice(["p1", "p*", "zz"]), "spool")
simple("s_select_time", lambda s, a: s.select(time=(gen.T_BASE + np.timedelta64(a[0], "ms"), gen.T_BASE + np.timedelta64(a[1], "ms"))),
       lambda r: sorted([r.randrange(0, 3000), r.randrange(0, 3000)]), "spool")
simple("s_select_dist", lambda s, a: s.select(distance=tuple(a)), lambda r: sorted([r.randint(0, 3), r.randint(1, 6)]), "spool")
simple("s_sort", lambda s, a: s.sort(a), lambda r: r.choice(["time", "tag", "distance", "bogus"]), "spool")
simple("s_chunk", lambda s, a: s.chunk(time=a[0], overlap=a[1], keep_partial=a[2], conflict=a[3]),
       lambda r: [r.choice([0.3, 0.5, 1, None]), r.choice([None, None, 0.1]), r.random() < 0.5, r.choice(["raise", "drop", "keep_first"])], "spool")
simple("s_merge", lambda s, a: s.chunk(time=..., conflict=a), lambda r: r.choice(["raise", "drop", "keep_first"]), "spool")
simple("s_concat", lambda s, a: s.concatenate(time=a), lambda r: r.choice([None, 2]), "spool")
simple("s_split", lambda s, a: list(s.split(size=a)), lambda r: r.choice([1, 2]), "spool")
simple("s_map", lambda s, a: list(s.map(lambda p: p.abs(), progress=False)), kinds="spool")
simple("s_names", lambda s, a: list(s.get_patch_names()), kinds="spool")
simple("s_str", lambda s, a: str(s), kinds="spool")
simple("s_eq", lambda s, t, a: s == t, kinds="spool spool")
simple("s_update", lambda s, a: s.update(progress=None), kinds="spool")
simple("s_stack", lambda s, a: s.stack(dim_vary="time", check_behavior=None), kinds="spool")
simple("s_pickle", lambda s, a: __import__("pickle").loads(__import__("pickle").dumps(s)), kinds="spool")
simple("s_spool", lambda s, a: dc.spool(s), kinds="spool")
simple("s_scan", lambda s, a: dc.scan_to_df(s), kinds="spool")
simple("f_merge", lambda p, q, a: dc.utils.patch.merge_patches([p, q]) if hasattr(dc.utils.patch, "merge_patches") else None, kinds="patch patch")
simple("f_concat", lambda p, q, a: dc.utils.patch.concatenate_patches([p, q], time=None), kinds="patch patch")
simple("f_stack", lambda p, q, a: dc.utils.patch.stack_patches([p, q], check_behavior=None), kinds="patch patch")

# ---------------------------------------------------------------- conversions
simple("u_quantity", lambda a: str(dc.get_quantity(a)), lambda r: r.choice(["m", "10 m/s", "1/(2 s)", "degC", "bogus!", "", "furlong", "strain", "m per s", "%"]), "")
simple("u_unit", lambda a: str(dc.get_unit(a)), lambda r: r.choice(["m", "m/s", "millifurlong", "zzz", "s**2", "dB"]), "")
simple("u_factor", lambda a: __import__("dascore.units", fromlist=["x"]).get_factor_and_unit(a), lambda r: r.choice(["km", "1000 m", "ms", "3 ft/s"]), "")
simple("u_conv", lambda a: __import__("dascore.units", fromlist=["x"]).convert_units(np.arange(3.) + 1, *a), lambda r: r.choice([["m", "ft"], ["s", "m"], ["degC", "K"]]), "")
simple("t_dt", lambda a: dc.to_datetime64(a), lambda r: r.choice(["2020-01-01", 12.5, [1, 2.5], None, "bogus", 1_000_000_000_000]), "")
simple("t_td", lambda a: dc.to_timedelta64(a), lambda r: r.choice([1, 2.5, [1, None], "5 s"]), "")
simple("t_float", lambda a: __import__("dascore.utils.time", fromlist=["x"]).to_float(dc.to_datetime64(a)), lambda r: r.choice(["2020-01-01", 12.5]), "")
simple("t_int", lambda a: __import__("dascore.utils.time", fromlist=["x"]).to_int(dc.to_datetime64(a)), lambda r: r.choice(["2020-01-01", 12.5]), "")
simple("e_patch", lambda a: dc.get_example_patch(a), lambda r: r.choice(
    ["random_das"] + 4 * ["wacky_dim_coords_patch"] + ["patch_with_null", "ricker_moveout", "sin_wav", "random_patch_with_lat_lon", "bogus", "delta_patch",
     "nd_patch", "chirp"]), "")
simple("e_spool", lambda a: dc.get_example_spool(a), lambda r: "random_das", "")
simple("fmt_known", lambda a: type(dc.io.core.FiberIO.manager.get_fiberio(format=a)).__name__,
       lambda r: r.choice(["DASDAE", "TERRA15", "SEGY", "BOGUS"]), "")


# ---------------------------------------------------------------- digests
def classify(v):
    from dascore.core.coordmanager import CoordManager
    from dascore.core.coords import BaseCoord
    from dascore.core.spool import BaseSpool
    if isinstance(v, dc.Patch):
        return "patch"
    if isinstance(v, BaseSpool):
        return "spool"
    if isinstance(v, BaseCoord):
        return "coord"
    if isinstance(v, CoordManager):
        return "cm"
    return "other"


def digest(v, deep=True):
    """Comparable plain value of anything an operation returns."""
    import pandas as pd
    k = classify(v)
    if k == "patch":
        d = gen.digest(v, history=True)
        d["all"] = tuple(sorted((n, gen._val(x)) for n, x in v.attrs.flat_dump().items()))
        d["coords"] = digest(v.coords)
        return d
    if k == "coord":
        try:
            a = gen.arr_digest(v.data)
        except Exception as e:  # partial coordinates
            a = type(e).__name__
        return (type(v).__name__, a, str(v.units), str(v.step), tuple(v.shape), str(v.min()), str(v.max()), len(v))
    if k == "cm":
        return (tuple(v.dims), tuple((n, tuple(v.dim_map[n]), digest(v.coord_map[n])) for n in sorted(v.coord_map)), tuple(v.shape))
    if k == "spool":
        out = [type(v).__name__, len(v), digest(v.get_contents())]
        if deep:
            out += [digest(p) for p in v]
        return tuple(out)
    if isinstance(v, pd.DataFrame):
        return ("df", tuple(map(str, v.columns)), tuple(str(x) for x in v.index),
                tuple((str(c), tuple(gen._val(x) if not hasattr(x, "isoformat") else str(x) for x in v[c])) for c in v.columns if c != "patch"))
    if isinstance(v, np.ndarray):
        return gen.arr_digest(v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(digest(x, deep) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((str(n), digest(v[n], deep)) for n in v))
    if hasattr(v, "model_dump"):
        return (type(v).__name__, tuple((n, gen._val(x)) for n, x in sorted(v.model_dump().items())))
    if isinstance(v, (str, int, float, bool, type(None), complex, np.generic)):
        return (type(v).__name__, str(v))
    return (type(v).__name__, str(v)[:300])


def key(d):
    import hashlib
    return hashlib.md5(repr(d).encode()).hexdigest()[:12]


def names(kind):
    return sorted(n for n, (k, _, _) in OPS.items() if kind is None or kind in k)


def gen_call(r, only=None):
    """[name, params]: which values it takes is the caller's choice."""
    name = r.choice(only or sorted(OPS))
    return [name, OPS[name][1](r)]


def run(name, values, params):
    """("ok", value) or ("err", description)."""
    import copy
    try:
        return "ok", OPS[name][2](*values, copy.deepcopy(params))
    except Exception as e:  # noqa: BLE001
        return "err", f"{type(e).__name__}: {e}"[:300]


# ---------------------------------------------------------------- namespaces a user registers
def _register():
    from dascore.utils.namespace import PatchNameSpace, SpoolNameSpace

    class VsimPatch(PatchNameSpace):
        name = "vsimns"

        def total(self):
            return float(np.abs(np.nan_to_num(self.data.astype(complex))).sum()), self.shape

    class VsimSpool(SpoolNameSpace):
        name = "vsimns"

        def rows(self):
            return len(self), sorted(map(str, self.get_contents()["tag"]))

    return VsimPatch, VsimSpool


try:
    NAMESPACES = _register()
except ImportError:
    NAMESPACES = ()
simple("ns_patch", lambda p, a: p.vsimns.total())
simple("ns_spool", lambda s, a: s.vsimns.rows(), kinds="spool")
simple("ns_names", lambda p, a: sorted({"io", "vsimns"} & set(p.get_registered_namespaces())))
simple("ns_viz", lambda p, a: type(p.viz).__name__)
simple("ns_none", lambda p, a: p.no_such_thing)
