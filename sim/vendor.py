"""Small synthetic files of vendor formats the library only reads (made with h5py/numpy alone)."""
import os

import numpy as np


def _data(i, nt, nd, dtype="float32"):
    return (np.arange(nt * nd, dtype=dtype).reshape(nt, nd) + i * 1000).astype(dtype)


def terra15(path, i, t, nt, nd, version="5"):
    import h5py
    with h5py.File(path, "w") as f:
        f.attrs.update(acoustic_bandwidth_end=1.0, amplifier_incoming_current=2.0, file_start_computer_time=3.0,
                       file_version=version, data_product="velocity", serial_number=f"s{i}", sensing_range_start=10.0,
                       dx=2.0, nx=nd, data_product_units="m/s", pulse_rate=100.0, pulse_length=5.0, gauge_length=8.0)
        g = f.create_group("velocity" if version == "4" else "data_product")
        g["gps_time"] = t + np.arange(nt) * 0.5
        g["posix_time"] = t + np.arange(nt) * 0.5
        g["data"] = _data(i, nt, nd)


def h5simple(path, i, t, nt, nd):
    import tables
    with tables.open_file(str(path), "w") as f:
        f.create_array("/", "data", _data(i, nt, nd))
        f.create_array("/", "time", t + np.arange(nt) * 0.5)
        f.create_array("/", "distance", np.arange(nd) * 2.0)
        f.root._v_attrs.dims = "time,distance"
        f.root._v_attrs.tag = f"simple{i}"


def optodas(path, i, t, nt, nd):
    import h5py
    with h5py.File(path, "w") as f:
        for n in ("acqSpec", "cableSpec"):
            f.create_group(n)
        f["fileVersion"] = "8"
        f["data"] = _data(i, nt, nd)
        h = f.create_group("header")
        h["dimensionNames"] = np.array([b"time", b"distance"])
        h["dimensionUnits"] = np.array([b"s", b"m"])
        r = h.create_group("dimensionRanges")
        for k, n, step in ((0, nt, 0.5), (1, nd, 2.0)):
            g = r.create_group(f"dimension{k}")
            g["unitScale"], g["min"], g["max"] = step, 0, n - 1
        h["time"], h["channels"] = float(t), np.arange(nd)
        h["gaugeLength"], h["unit"], h["instrument"], h["experiment"] = 8.0, "m/s", f"o{i}", "exp"


def silixa(path, i, t, nt, nd):
    import h5py
    stamp = np.datetime64(int(t), "s").astype(object).strftime("%d/%m/%Y %H:%M:%S (UTC)")
    attrs = {"GaugeLength": "8", "SamplingFrequency[Hz]": "2", "Fibre Length Multiplier": "1",
             "Start Distance (m)": "0", "Stop Distance (m)": "10", "Fibre Length per Metre": "1",
             "GPSTimeStamp": stamp, "CPUTimeStamp": stamp, "Tags": f"sil{i}", "PulseWidth[ns]": "50",
             "MeasureLength[m]": "10", "StartPosition[m]": "0", "SpatialResolution[m]": "2",
             "SystemInfomation.Devices1.SerialNum": f"x{i}"}
    with h5py.File(path, "w") as f:
        d = f.create_dataset("Acoustic", data=_data(i, nt, nd, "int16"))
        d.attrs.update(attrs)


def apsensing(path, i, t, nt, nd):
    import h5py
    with h5py.File(path, "w") as f:
        f.attrs.update(AppVersion="1", FileVersion="10", OpticalChannelNumber="1")
        for n in ("DAQ", "Interrogator", "Metadata", "ProcessingServer"):
            f.create_group(n)
        f["ProcessingServer/DataRate"] = np.array([2.0])
        f["ProcessingServer/GaugeLength"] = np.array([8.0])
        f["ProcessingServer/RadiansToNanoStrain"] = np.array([1.5])
        f["Metadata/Timestamp"] = np.array([str(np.datetime64(int(t), "s")).encode()])
        f["Metadata/Timezone"] = np.array([b"UTC"])
        f["Metadata/TraceCount"] = np.array([nt])
        f["DAQ/PositionStart"], f["DAQ/PositionEnd"] = np.array([0.0]), np.array([2.0 * nd])
        f["DAQ/SerialNumber"] = np.array([b"ap1"])
        f["DAS"] = _data(i, nt, nd)


def dashdf5(path, i, t, nt, nd):
    import h5py
    with h5py.File(path, "w") as f:
        f.attrs["Conventions"] = ["CF-1.7", "DAS-HDF5-1.0"]
        f["channel"], f["trace"] = np.arange(nd), np.arange(nt)
        f["t"] = t + np.arange(nt) * 0.5
        for n in "xyz":
            f[n] = np.arange(nd) * 3.0
            f[n].attrs["units"] = "m"
        f["das"] = _data(i, nt, nd).T
        f["das"].attrs["long_name"] = "strain_rate"
        f.create_group("crs").attrs["epsg_code"] = "EPSG:1"


def sintela(path, i, t, nt, nd):
    from dascore.io.sintela_binary import utils as u
    base = np.zeros(1, u.base_header_dtypes)
    base["sync_word"], base["version"] = u.SYNC_WORD, 3
    base["header_size"] = u._HEADER_SIZES["3"]
    with open(path, "wb") as f:
        for k in range(3):
            h = np.zeros(1, u._HEADER_DTYPES["3"])
            h["start_time_ns"] = int((t + k * nt * 0.5) * 1e9)
            h["num_channels"], h["num_samples"], h["sample_rate"] = nd, nt, 2
            h["channel_spacing"], h["gauge_length"], h["channel_step"] = 2, 8, 1
            h["data_type"] = 3
            f.write(base.tobytes() + h.tobytes() + _data(i + k, nt, nd).astype("<f4").tobytes())


def febus_g1(path, i, t, nt, nd):
    lines = ["Param;sampling resolution;0.5", "Param;fiberFrom;0", f"Param;fiberTo;{nd * 0.5}",
             f"Param;start time;{float(t)};x", f"Param;end time;{float(t) + 1};x", "Param;mode;strain",
             "Param;channel;1"] + [str(float(k + i)) for k in range(nd)]
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


# name -> (maker, extension, fixed file name stem or None)
FORMATS = {
    "TERRA15": (terra15, ".hdf5", None), "H5SIMPLE": (h5simple, ".h5", None), "OPTODAS": (optodas, ".hdf5", None),
    "SILIXA_H5": (silixa, ".hdf5", None), "APSENSING": (apsensing, ".hdf5", None),
    "DASHDF5": (dashdf5, ".hdf5", None), "SINTELA_BINARY": (sintela, ".raw", None),
    "FEBUS_G1_CSV": (febus_g1, ".bsl", "febg1_C1_2023-05-10T12.25.0{}+0000"),
}


def make(fmt, path, i, t=1_600_000_000, nt=4, nd=3, **kw):
    FORMATS[fmt][0](path, i, t, nt, nd, **kw)


def file_name(fmt, k):
    _, ext, stem = FORMATS[fmt]
    return (stem.format(k % 10) if stem else f"v{k}") + ext


# ------------------------------------------------------------------ more formats, for detection
def h5simple2(path, i, t, nt, nd):
    """Two non-time arrays of one length and no dims attribute."""
    import h5py
    with h5py.File(path, "w") as f:
        f["raw"] = _data(i, nt, nd)
        f["timestamps"] = t + np.arange(nt) * 0.5
        f["distance"], f["channels"] = np.arange(nd) * 2.0, np.arange(nd)


def prodml(path, i, t, nt, nd, version="2.1"):
    import h5py
    with h5py.File(path, "w") as f:
        a = f.create_group("Acquisition")
        a.attrs.update(PulseRate=100.0, PulseWidth=5.0, NumberOfLoci=nd, schemaVersion=version, uuid=f"u{i}",
                       SpatialSamplingInterval=2.0, StartLocusIndex=0, GaugeLength=8.0)
        a.attrs["SpatialSamplingIntervalUnit"] = "m"
        g = a.create_group("Raw[0]")
        g.attrs.update(RawDataUnit="rad/s", RawDescription="x", OutputDataRate=2.0, NumberOfLoci=nd)
        us = (int(t * 1e6) + np.arange(nt) * 500_000).astype("int64")
        g["RawDataTime"] = us
        iso = [str(np.datetime64(int(x), "us")) for x in (us[0], us[-1])]
        g["RawDataTime"].attrs.update(PartStartTime=iso[0] + "Z", PartEndTime=iso[1] + "Z")
        g["RawData"] = _data(i, nt, nd)
        g["RawData"].attrs.update(Dimensions=["time", "locus"])


def neubrex_rfs(path, i, t, nt, nd):
    import h5py
    with h5py.File(path, "w") as f:
        f["data"] = _data(i, nt, nd)
        f["data"].attrs.update(DataUnitLabel="strain", StartDateTime="a", EndDateTime="b")
        f["depth"] = np.arange(nd) * 2.0
        f["stamps"] = np.arange(nt)
        f["stamps_unix"] = (t + np.arange(nt) * 0.5) * 1e6


def sentek(path, i, t, nt, nd):
    h = np.array([nd, nt, 1.0, 1.0, 0, 1.0], "float32")
    np.concatenate([h, np.arange(nd, dtype="float32"), np.arange(nt, dtype="float32"),
                    _data(i, nt, nd).ravel()]).astype("float32").tofile(path)


def tdms(path, i, t, nt, nd):
    import struct
    with open(path, "wb") as f:
        f.write(struct.pack("<4siiQQ", b"TDSm", 14, 4713, 100, 50) + bytes(200))


def poly_h5(path, i, t, nt, nd, which=0):
    """Accepted by more than one format."""
    import h5py
    (terra15, apsensing, optodas, silixa)[which % 4](path, i, t, nt, nd)
    with h5py.File(path, "a") as f:
        if "data" not in f:
            f["data"] = _data(i + 7, nt, nd)
        f["time"] = t + np.arange(nt) * 0.5
        f["distance"] = np.arange(nd) * 2.0


def poly_segy(path, i, t, nt, nd, which=0):
    """A sentek file, or a pickled patch, whose bytes 3200-3600 look like a SEGY header."""
    if which % 2:
        sentek(path, i, t, nt, nd)
        with open(path, "rb") as f:
            b = f.read()
    else:
        import pickle
        import dascore as dc
        b = pickle.dumps(dc.Patch(data=_data(i, nt, nd), dims=("time", "distance"),
                                  coords=dict(time=np.arange(nt), distance=np.arange(nd))))
    b = bytearray(b.ljust(8000, b"\0"))
    b[3200:3600] = bytes(400)
    b[3216:3218], b[3220:3222], b[3224:3226] = b"\0\1", b"\0\4", b"\0\5"
    with open(path, "wb") as f:
        f.write(b)
