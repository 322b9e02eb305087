"""Python side of the system-call seam (sim/faultio.c) and the simulated clock."""
import atexit
import ctypes
import mmap
import os
import time as _time

OPEN, READ, WRITE, TRUNC, SYNC, CLOSE, RENAME, UNLINK, STAT, OPENW = (
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512)
ERR, SHORT, TORN_CRASH, CRASH_BEFORE, CRASH_AFTER, CALLBACK, GATE = 1, 2, 3, 4, 5, 6, 7
CLASS_NAMES = {OPEN: "open", READ: "read", WRITE: "write", TRUNC: "truncate", SYNC: "sync",
               CLOSE: "close", RENAME: "rename", UNLINK: "unlink", OPENW: "open-for-write"}
CRASH_CODE = 77

_so = os.environ["VSIM_SHIM"]
_lib = ctypes.CDLL(_so)
_lib.fio_seen.restype = ctypes.c_long
_lib.fio_fired.restype = ctypes.c_long
_lib.fio_count.restype = ctypes.c_long
_lib.fio_hash.restype = ctypes.c_uint64
_lib.fio_slept.restype = ctypes.c_int64
_lib.fio_rule.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_long,
                          ctypes.c_long, ctypes.c_char_p]
changes = ctypes.c_long.in_dll(_lib, "fio_changes")
_CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_char_p)
_keep = []

root = lambda p: _lib.fio_root(str(p).encode() if p else None)
reset = _lib.fio_reset
clear = _lib.fio_clear
seen = _lib.fio_seen
fired = _lib.fio_fired
count = _lib.fio_count
hash = _lib.fio_hash
nsleeps = _lib.fio_nsleeps
slept_ns = _lib.fio_slept
gate = _lib.fio_gate


def rule(cls, action, nth=1, n=1, arg=0, match=""):
    i = _lib.fio_rule(cls, action, nth, n, arg, match.encode())
    if i < 0:
        raise RuntimeError("too many shim rules")
    return i


def callback(fn):
    """fn(rule_index, class, path) -> 0 or an errno to fail the call with."""
    def safe(r, c, p):
        try:
            return fn(r, c, p.decode()) or 0
        except BaseException:  # a harness bug must not be swallowed by ctypes
            import traceback
            traceback.print_exc()
            os._exit(79)
    c = _CB(safe)
    _keep.append(c)
    _lib.fio_callback(c)


def open_fds():
    buf = ctypes.create_string_buffer(1 << 16)
    _lib.fio_open_fds(buf, len(buf))
    return [x for x in buf.value.decode().split("\n") if x]


def log_to(fd):
    _lib.fio_log(fd)


# ------------------------------------------------------------------ clock
_page = mmap.mmap(-1, mmap.PAGESIZE)          # shared with every forked process
_clock = ctypes.c_int64.from_buffer(_page)
_lib.fio_clock(ctypes.byref(_clock))
_lib.fio_sleep.argtypes = [ctypes.c_int64]
_real_sleep = _time.sleep
real_monotonic = _time.monotonic


def _sleep(seconds):
    if seconds < 0:
        raise ValueError("sleep length must be non-negative")
    if not _lib.fio_sleep(int(round(seconds * 1e9))):
        _real_sleep(seconds)


_time.sleep = _sleep
atexit.register(lambda: _lib.fio_clock(None))


def new_clock(start_s):
    """A fresh shared clock page for this run (and the processes it forks)."""
    global _page, _clock
    page = mmap.mmap(-1, mmap.PAGESIZE)
    clk = ctypes.c_int64.from_buffer(page)
    clk.value = int(start_s * 1e9)
    _keep.append((_page, _clock))
    _page, _clock = page, clk
    _lib.fio_clock(ctypes.byref(_clock))


def now():
    return _clock.value / 1e9


def advance(seconds):
    _clock.value += int(round(seconds * 1e9))


def clock_off():
    _clock.value = 0
