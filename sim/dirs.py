"""Data directories: a corpus of files in several formats, and index rows as plain values."""
import os
import shutil
import warnings

import numpy as np
import pandas as pd

from . import core, gen, shim

_XML = """<?xml version='1.0' encoding='utf-8'?>
<Metadata><FileFormat>RAW</FileFormat><DateTime>2024-05-30T01:15:00Z</DateTime>
<DasInterrogatorSerial><Interrogator_1>{iu}</Interrogator_1></DasInterrogatorSerial>
<GaugeLengthM>1</GaugeLengthM><PulseWidthNs>100</PulseWidthNs><DataType>uint16</DataType>
<NumberOfLasers>2</NumberOfLasers><ITUChannels><Laser_1>15</Laser_1><Laser_2>10</Laser_2></ITUChannels>
<OriginalTemporalSamplingRate>1000</OriginalTemporalSamplingRate>
<OutputTemporalSamplingRate>{rate}</OutputTemporalSamplingRate>
<OriginalSpatialSamplingInterval>1</OriginalSpatialSamplingInterval><Units>m</Units>
<Zones><Zone><StartChannel>1</StartChannel><EndChannel>{nd}</EndChannel><Stride>1</Stride>
<NumberOfChannels>{nd}</NumberOfChannels></Zone></Zones>
<NumberOfChannels>{nd}</NumberOfChannels><NumberOfFrames>{nt}</NumberOfFrames>
<UseRelativeStrain>False</UseRelativeStrain><TransposedData>False</TransposedData></Metadata>
"""

ROW_COLS = ("path", "tag", "station", "network", "time_min", "time_max", "time_step", "dims",
            "data_type", "data_category", "instrument_id", "file_format", "file_version")


def _cell(c, v):
    if v is None:
        return ""
    if isinstance(v, float) and v != v:
        return ""
    if v is pd.NaT:
        return ""
    if c in ("time_min", "time_max", "time_step") and isinstance(v, float):
        return f"float:{v}"
    if hasattr(v, "to_numpy"):
        v = v.to_numpy()          # numpy itself would drop the nanoseconds of a pandas time
    if c in ("time_min", "time_max"):
        if isinstance(v, (np.timedelta64, pd.Timedelta)):
            return f"td:{np.timedelta64(v, 'ns').astype(np.int64)}"
        v = np.datetime64(v, "ns")
        return "" if np.isnat(v) else str(v)
    if c == "time_step":
        v = np.timedelta64(v, "ns")
        return "" if np.isnat(v) else str(v.astype(np.int64))
    if c == "dims" and not isinstance(v, str):
        return ",".join(v)
    return str(v)


def df_rows(df):
    """Sorted list of row tuples of a contents dataframe (paths as they are)."""
    cols = [c for c in ROW_COLS if c in df.columns]
    out = []
    for rec in df[cols].to_dict("records"):
        out.append(tuple(_cell(c, rec.get(c)) for c in ROW_COLS))
    return sorted(out)


def attrs_row(a, base):
    d = a.flat_dump()
    d["path"] = os.path.relpath(str(d["path"]), base)
    return tuple(_cell(c, d.get(c)) for c in ROW_COLS)


# ------------------------------------------------------------------ corpus
# A family is a file that grows: versions[k] = {"files": {relname: bytes}, "rows": [row...]}
# where relname is "" for a plain file; rows have path relative to the slot path.
def _render(spec, tmp):
    import dascore as dc
    kind = spec["kind"]
    versions = []
    specs = spec.get("patches", [])
    cuts = spec.get("cuts") or [len(specs)]
    for k, n in enumerate(cuts):
        if kind == "XMLBINARY":
            d = os.path.join(tmp, "x")
            os.makedirs(d)
            with open(os.path.join(d, "metadata.xml"), "w") as f:
                f.write(_XML.format(**spec["xml"]))
            for j in range(n):
                sec = spec["t"] + j
                name = f"DAS_20200101T0{sec // 3600}{sec // 60 % 60:02d}{sec % 60:02d}_000000Z.raw"
                np.arange(spec["xml"]["nt"] * spec["xml"]["nd"], dtype="uint16").tofile(os.path.join(d, name))
            files = {n2: open(os.path.join(d, n2), "rb").read() for n2 in sorted(os.listdir(d))}
            rows = sorted(attrs_row(a, d) for a in dc.scan(d, progress=None))
            versions.append({"files": files, "rows": rows})
            shutil.rmtree(d)
            continue
        f = os.path.join(tmp, "f" + spec["ext"])
        if kind == "JUNK":
            with open(f, "wb") as fh:
                fh.write(spec["bytes"].encode())
            rows = []
        elif kind == "VENDOR":
            from . import vendor
            vendor.make(spec["fmt"], f, spec["i"], t=1_577_836_800 + spec["i"] * 20, nt=n)
            rows = [("",) + attrs_row(a, tmp)[1:] for a in dc.scan(f, progress=None)]
        else:
            sp = dc.spool([_patch(s) for s in specs[:n]])
            kw = {"index": True} if spec.get("index") else {}
            dc.write(sp, f, kind, spec.get("version"), **kw)
            rows = sorted(attrs_row(a, tmp) for a in dc.scan(f, progress=None))
            rows = [(os.path.relpath(r[0], "f" + spec["ext"]) if 0 else "",) + r[1:] for r in rows]
        versions.append({"files": {"": open(f, "rb").read()}, "rows": rows})
        os.remove(f)
    return versions


def _patch(s):
    return gen.make_patch(s)


def family_specs():
    """Fixed corpus description (independent of the check's seed)."""
    rng = core.rng_for("corpus", 1)
    ids = iter(range(10000))
    out = []

    def patches(n, **kw):
        return [gen.gen_spec(rng, next(ids), **kw) for _ in range(n)]

    for i in range(8):
        out.append(dict(kind="DASDAE", ext=[".h5", ".hdf5"][i % 2], patches=patches(3), cuts=[1, 2, 3]))
    for i in range(3):
        out.append(dict(kind="DASDAE", ext=".h5", patches=patches(5), cuts=[3, 5]))
    # one station/tag, contiguous segments in separate files
    for i in range(4):
        out.append(dict(kind="DASDAE", ext=".h5", cuts=[1],
                        patches=[dict(id=next(ids), t=100000 + i * 1000, nt=10, dt=100, nd=3, tag="line")]))
    for i in range(2):
        out.append(dict(kind="PICKLE", ext=".pkl", patches=patches(2 + i), cuts=[1, 2 + i]))
    out.append(dict(kind="SEGY", ext=".segy", version="1.0", cuts=[1],
                    patches=[dict(id=next(ids), t=3000, nt=8, dt=10, nd=3, dtype="float32")]))
    out.append(dict(kind="DASDAE", ext=".h5", index=True, patches=patches(3), cuts=[2, 3]))
    out.append(dict(kind="DASDAE", ext=".h5", cuts=[1], patches=[dict(id=next(ids), special="notime")]))
    out.append(dict(kind="DASDAE", ext=".h5", cuts=[1], patches=[dict(id=next(ids), special="nodist")]))
    out.append(dict(kind="XMLBINARY", ext="", t=4000, cuts=[1, 2, 3], xml=dict(iu="iu1", rate=1000, nd=4, nt=10)))
    out.append(dict(kind="XMLBINARY", ext="", t=5000, cuts=[2, 4], xml=dict(iu="iu2", rate=500, nd=3, nt=5)))
    out.append(dict(kind="JUNK", ext=".txt", bytes="some notes\n"))
    out.append(dict(kind="JUNK", ext=".h5", bytes=""))
    for i, (fmt, ext) in enumerate((("TERRA15", ".hdf5"), ("H5SIMPLE", ".h5"), ("OPTODAS", ".hdf5"),
                                    ("SILIXA_H5", ".hdf5"), ("APSENSING", ".hdf5"), ("DASHDF5", ".hdf5"),
                                    ("SINTELA_BINARY", ".raw"))):
        out.append(dict(kind="VENDOR", ext=ext, fmt=fmt, i=i + 1, cuts=[4, 5]))
    return out


def _build(specs):
    warnings.simplefilter("ignore")
    tmp = os.path.join(core._DIRBASE, f"corpus-{os.getpid()}")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        return [dict(spec=s, versions=_render(s, tmp)) for s in specs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_corpus(specs=None):
    """Render every family in a process of its own (the caller stays pristine)."""
    return core.in_process(_build, specs or family_specs())


def place(base, rel, version, mtime):
    """Make a version appear at base/rel at once, with the given mtime."""
    path = os.path.join(base, rel)
    new = [os.path.dirname(path)]       # directories which change
    while not os.path.isdir(new[-1]):
        new.append(os.path.dirname(new[-1]))
    os.makedirs(new[0], exist_ok=True)
    _place(base, path, version["files"], int(round(mtime * 1e9)))
    # directories follow the simulated clock too
    now = int(shim.now() * 1e9)
    for d in new:
        os.utime(d, ns=(now, now))


def _place(base, path, files, ns):
    if "" in files:
        tmp = os.path.join(base, ".vsim_incoming")
        with open(tmp, "wb") as f:
            f.write(files[""])
        os.utime(tmp, ns=(ns, ns))
        os.rename(tmp, path)
        return
    if os.path.isdir(path):
        for n, b in files.items():
            q = os.path.join(path, n)
            if not os.path.exists(q):
                tmp = os.path.join(base, ".vsim_incoming")
                with open(tmp, "wb") as f:
                    f.write(b)
                os.utime(tmp, ns=(ns, ns))
                os.rename(tmp, q)
        os.utime(path, ns=(ns, ns))
        return
    tmp = os.path.join(base, ".vsim_incoming_dir")
    os.makedirs(tmp)
    for n, b in files.items():
        q = os.path.join(tmp, n)
        with open(q, "wb") as f:
            f.write(b)
        os.utime(q, ns=(ns, ns))
    os.utime(tmp, ns=(ns, ns))
    os.rename(tmp, path)


def expected_rows(rel, version):
    """Rows the index should list for a version placed at rel."""
    out = []
    for r in version["rows"]:
        out.append((os.path.normpath(os.path.join(rel, r[0])) if r[0] else rel,) + tuple(r[1:]))
    return out


def use_run_dir(ctx):
    """Point the library's per-user state into the run directory."""
    from pathlib import Path
    from dascore.io.indexer import DirectoryIndexer
    DirectoryIndexer.index_map_path = Path(ctx.root) / "xdg" / "cache_paths.json"
    warnings.simplefilter("ignore")
