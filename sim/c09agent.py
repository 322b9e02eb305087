"""A fresh interpreter (own hash seed, own plugin order) that runs one history of detections."""
import json
import os
import random
import sys
import warnings


def outcome(fn):
    from . import core
    try:
        return ["ok", fn()]
    except Exception as e:  # noqa: BLE001
        if not core.from_library(e):
            raise
        return ["err", ""]


def patch_key(p, base):
    from . import gen
    return gen.dkey(gen.digest(p, skip_attrs=("path",)))


def attrs_key(a, base):
    from . import dirs
    row = list(dirs.attrs_row(a, base))
    row[0] = ""
    return row


def get_format(path):
    import dascore as dc
    return outcome(lambda: list(dc.get_format(path)))


def read(path, base, *fmt):
    import dascore as dc
    return outcome(lambda: sorted(patch_key(p, base) for p in dc.read(path, *fmt)))


def scan(path, base):
    import dascore as dc
    return outcome(lambda: sorted(attrs_key(a, base) for a in dc.scan(path, progress=None)))


def contents(path, base):
    import dascore as dc
    from . import dirs

    def go():
        df = dc.spool(path).get_contents()
        return sorted([""] + list(r[1:]) for r in dirs.df_rows(df))
    return outcome(go)


def scan_dir(base, sub, update):
    """{relative file: rows}; lists of files of a directory spool or scan."""
    import dascore as dc
    from . import dirs
    d = os.path.join(base, sub)

    def go():
        if update:
            rows = dirs.df_rows(dc.spool(d).update(progress=None).get_contents())
            rows = [[os.path.relpath(os.path.join(d, r[0]), d)] + list(r[1:]) for r in rows]
        else:
            rows = [list(dirs.attrs_row(a, d)) for a in dc.scan(d, progress=None)]
        out = {}
        for r in rows:
            out.setdefault(r[0].split("/")[0], []).append([""] + r[1:])
        return {k: sorted(v) for k, v in out.items()}
    return outcome(go)


def add_plugin(kind):
    from dascore.io.core import FiberIO

    def getter(result):
        def get_format(self, resource, **kwargs):
            if result == "raise":
                raise RuntimeError("plugin failure")
            if result == "zz":
                with open(resource, "rb") as f:
                    return ("ZZTEST", "1") if f.read(6) == b"ZZTEST" else False
            return False
        return get_format

    spec = {"zz": ("ZZTEST", "1", ()), "first": ("AAATEST", "1", ("h5", "hdf5", "pkl", "segy", "raw")),
            "raise": ("AABTEST", "1", ("h5", "txt")), "newver": ("DASDAE", "99", ("h5",)),
            "newver2": ("TERRA15", "99", ("hdf5", "h5"))}[kind]
    type("Plugin" + kind, (FiberIO,), dict(name=spec[0], version=spec[1], preferred_extensions=spec[2],
                                           get_format=getter(kind)))


def permute_plugins(seed):
    """Entry points are found in another order (another installation)."""
    import dascore.io.core as ioc
    from dascore.utils import plugins
    real = plugins.get_entry_point_loaders("dascore.fiber_io")
    names = sorted(real)
    random.Random(seed).shuffle(names)
    eps = {n: real[n] for n in names}
    if seed % 3 == 0:
        def bad():
            raise ModuleNotFoundError("No module named 'gone'")
        eps = {"AGONE__V1": bad, **eps}
    ioc.get_entry_point_loaders = lambda g: eps if g == "dascore.fiber_io" else plugins.get_entry_point_loaders(g)


def run(plan, base):
    from . import core
    core.install_seams()
    core.set_listing(plan["listing"])
    warnings.simplefilter("ignore")
    import dascore as dc
    from pathlib import Path
    from dascore.io.core import FiberIO
    from dascore.io.indexer import DirectoryIndexer
    DirectoryIndexer.index_map_path = Path(base) / "xdg" / "cache_paths.json"
    if plan["order"]:
        permute_plugins(plan["order"])
    out = []
    for st in plan["steps"]:
        op, arg = st[0], st[1]
        path = os.path.join(base, "files", arg) if isinstance(arg, str) else None
        if op == "format":
            r = get_format(path)
        elif op == "read":
            r = read(path, base)
        elif op == "scan":
            r = scan(path, base)
        elif op == "contents":
            r = contents(path, base)
        elif op == "read_as":
            r = read(path, base, *st[2])
        elif op == "scan_dir":
            r = scan_dir(base, st[1], False)
        elif op == "index_dir":
            r = scan_dir(base, st[1], True)
        elif op == "hint":
            def go():
                hint = FiberIO.manager.get_fiberio(format=st[2][0], version=st[2][1] or None)
                return list(dc.get_format(path, fiber_io_hint={hint.input_type: hint}))
            r = outcome(go)
        elif op == "load":
            r = outcome(lambda: FiberIO.manager.load_plugins(st[2][0]))
        elif op == "plugin":
            add_plugin(st[2])
            r = ["ok", None]
        else:
            raise core.HarnessError(op)
        out.append(r)
    return out


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        doc = json.load(f)
    res = run(doc["plan"], doc["base"])
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)
