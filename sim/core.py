"""Runs, processes, plans, shrinking: the parts every world shares."""
import fcntl
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

from . import shim

REPO = os.environ.get("VSIM_REPO", "/repo")


class Violation(Exception):
    """The property is broken.  kind is stable under shrinking, detail is for people."""

    def __init__(self, kind, detail=""):
        self.kind, self.detail = kind, str(detail)[:2000]
        super().__init__(f"{kind}: {self.detail}")


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The plan is not meaningful (e.g. after shrinking); no verdict."""


def rng_for(*parts):
    h = hashlib.sha256(json.dumps(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def jhash(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def from_library(exc):
    """True if the exception passed through (or was raised in) the library's code."""
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in tb
             if f.filename.startswith(REPO + "/")]
    return f"{type(exc).__name__}: {str(exc)[:300]} at {' < '.join(reversed(where[-3:]))}"


# ------------------------------------------------------------------ child processes
def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def spawn(fn, *args, before=None):
    """Fork a simulated process running fn(*args). Returns (pid, result fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    key = fork_key()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 0
    try:
        set_entropy(key)
        os.close(r)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        try:
            out = ("ok", fn(*args))
        except Violation as v:
            out = ("violation", (v.kind, v.detail))
        except Skip as s:
            out = ("skip", str(s))
        except HarnessError as e:
            out = ("harness", str(e))
        except BaseException as e:  # noqa: BLE001
            if from_library(e):
                out = ("violation", ("unexpected-exception", describe(e)))
            else:
                out = ("harness", "".join(traceback.format_exception(e))[-3000:])
        shim.clear()
        shim.gate(-1, -1)
        blob = pickle.dumps(out)
        _write_all(w, struct.pack("<Q", len(blob)) + blob)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 80
    finally:
        os._exit(code)


def collect(pid, fd, timeout=120.0):
    """Result of a spawned process: (status, payload)."""
    buf = b""
    end = shim.real_monotonic() + timeout
    timed_out = False
    while True:
        left = end - shim.real_monotonic()
        ready = select.select([fd], [], [], max(left, 0))[0] if left > 0 else []
        if not ready:
            timed_out = True
            break
        b = os.read(fd, 1 << 20)
        if not b:
            break
        buf += b
    os.close(fd)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return ("timeout", timeout)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if len(buf) >= 8:
        n = struct.unpack("<Q", buf[:8])[0]
        if len(buf) == 8 + n:
            return pickle.loads(buf[8:])
    if code == shim.CRASH_CODE:
        return ("crashed", None)
    return ("died", code)


def process(fn, *args, timeout=120.0):
    """Run fn in a simulated process to its end; re-raise violations here.

    Returns ("ok", value) or ("crashed", None).
    """
    st, val = collect(*spawn(fn, *args), timeout=timeout)
    if st in ("ok", "crashed"):
        return st, val
    if st == "violation":
        raise Violation(*val)
    if st == "skip":
        raise Skip(val)
    if st == "timeout":
        raise Violation("hang", f"no progress within {timeout} s of real time")
    if st == "died":
        raise Violation("process-died", f"exit status {val}")
    raise HarnessError(f"{st}: {val}")


def in_process(fn, *args, timeout=120.0):
    st, val = process(fn, *args, timeout=timeout)
    if st != "ok":
        raise HarnessError("unexpected simulated crash")
    return val


# ------------------------------------------------------------------ worlds
class World:
    """One property's simulator.  Subclasses define gen(rng, size) and execute(plan, ctx)."""

    prop = "C00"
    quick_runs = 200
    thorough_runs = 4000
    quick_wall = 75.0
    thorough_wall = 1500.0
    run_timeout = 150.0
    real = ()
    stubs = ()
    rule = ""
    assumptions = ()
    #: faults per run are recorded in ctx.faults

    def setup(self):
        """In the zygote, before forking workers: build the shared corpus."""

    def gen(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def simplify(self, plan):
        """Yield simpler plans (besides dropping steps)."""
        return ()


class Ctx:
    """What one run has at hand: its directory, event log and counters."""

    def __init__(self, root):
        self.root = root
        self.events = []
        self.faults = {}
        self.probes = {}
        self.sim_start = None
        self.sim_seconds = 0.0
        self.states = set()

    def log(self, *a):
        self.events.append(a)

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *a):
        self.states.add(jhash(a))


_DIRBASE = os.environ.get("VSIM_SCRATCH", "/dev/shm/vsim")


def run_dir(prop, seed):
    return os.path.join(_DIRBASE, f"{prop}-{seed & 0xffffffff:08x}")


def _child_run(world, plan):
    d = run_dir(world.prop, plan["seed"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.environ["XDG_CACHE_HOME"] = os.path.join(d, "xdg")
    os.chdir(d)
    ctx = Ctx(d)
    set_entropy(plan["seed"])
    set_listing(plan.get("listing", 0))
    hook = getattr(world, "in_child", None)
    if hook:
        hook(plan, ctx)
    shim.new_clock(plan.get("t0", 1_700_000_000))
    t0 = shim.now()
    out = {"violation": None}
    try:
        try:
            world.execute(plan, ctx)
        except Violation as v:
            out["violation"] = (v.kind, v.detail)
        except Skip as s:
            out["skip"] = str(s)
        except HarnessError as e:
            out["harness"] = "".join(traceback.format_exception(e))[-3000:]
        except BaseException as e:  # noqa: BLE001
            if from_library(e):
                out["violation"] = ("unexpected-exception", describe(e))
            else:
                out["harness"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        out["sim_s"] = ctx.sim_seconds or max(shim.now() - t0, 0.0)
        shim.clock_off()
        shim.clear()
        shim.root(None)
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
    out["log"] = jhash(ctx.events)
    out["events"] = len(ctx.events)
    if os.environ.get("VSIM_TRACE"):
        out["trace"] = ctx.events
    out["faults"] = ctx.faults
    out["probes"] = ctx.probes
    out["states"] = list(ctx.states)
    return out


def run_plan(world, plan):
    """Execute a plan in a fresh forked process. Returns the result dict."""
    st, val = collect(*spawn(_child_run, world, plan), timeout=world.run_timeout)
    if st == "ok":
        return val
    base = {"violation": None, "faults": {}, "probes": {}, "states": [], "log": "", "events": 0, "sim_s": 0}
    if st == "timeout":
        base["violation"] = ("hang", f"run made no progress for {val} s")
    elif st == "died":
        base["violation"] = ("process-died", f"exit status {val}")
    elif st == "violation":
        base["violation"] = val
    else:
        base["harness"] = f"{st} {val}"
    return base


def shrink(world, plan, kind, budget_s=60.0):
    """Greedy minimisation keeping the violation kind. Returns (plan, tries)."""
    end = shim.real_monotonic() + budget_s
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        r = run_plan(world, p)
        return bool(r["violation"]) and r["violation"][0] == kind

    best = plan
    changed = True
    while changed and shim.real_monotonic() < end:
        changed = False
        for key in ("steps", "faults", "switches"):
            items = best.get(key)
            if not isinstance(items, list) or not items:
                continue
            n = max(len(items) // 2, 1)
            while n >= 1 and shim.real_monotonic() < end:
                i = 0
                while i < len(best[key]) and shim.real_monotonic() < end:
                    cand = dict(best)
                    cand[key] = best[key][:i] + best[key][i + n:]
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += n
                n //= 2
        for cand in world.simplify(best):
            if shim.real_monotonic() > end:
                break
            if cand != best and fails(cand):
                best = cand
                changed = True
                break
    return best, tries


# ------------------------------------------------------------------ directory listing seam
_listing = {"mode": 0}
_real_scandir = os.scandir
_real_listdir = os.listdir


def set_listing(mode):
    """mode 0: sorted; 1: reversed; other: pseudo-random permutation keyed by it."""
    _listing["mode"] = mode


def _order(names):
    m = _listing["mode"]
    if m == 0:
        return sorted(names)
    if m == 1:
        return sorted(names, reverse=True)
    return sorted(names, key=lambda n: hashlib.md5(f"{m}:{n}".encode()).digest())


class _Scan:
    def __init__(self, it):
        entries = list(it)
        it.close()
        by = {e.name: e for e in entries}
        self._it = iter([by[n] for n in _order(list(by))])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


_denied = set()


def deny_dirs(paths):
    """Directories whose listing fails with EACCES (root ignores permission bits)."""
    _denied.clear()
    _denied.update(os.path.normpath(p) for p in paths)


def _check_denied(path):
    if _denied and os.path.normpath(os.fspath(path)) in _denied:
        raise PermissionError(13, "Permission denied", os.fspath(path))


def _scandir(path="."):
    _check_denied(path)
    it = _real_scandir(path)
    return _Scan(it)


def _listdir(path="."):
    _check_denied(path)
    out = _real_listdir(path)
    return _order(out)


# ------------------------------------------------------------------ entropy seam
_entropy = {"key": "boot", "n": 0, "forks": 0}


def set_entropy(key):
    _entropy.update(key=str(key), n=0, forks=0)
    random.seed(f"vsim:{key}")


def fork_key():
    _entropy["forks"] += 1
    return f"{_entropy['key']}/{_entropy['forks']}"


def _urandom(n):
    out = b""
    while len(out) < n:
        _entropy["n"] += 1
        out += hashlib.sha256(f"{_entropy['key']}:{_entropy['n']}".encode()).digest()
    return out[:n]


def install_seams():
    os.urandom = _urandom
    import tempfile
    import uuid
    uuid.uuid4 = lambda: uuid.UUID(bytes=_urandom(16), version=4)
    tempfile._RandomNameSequence.rng = property(lambda self: _name_rng())
    os.scandir = _scandir
    os.listdir = _listdir
    for name in ("flock", "lockf"):
        setattr(fcntl, name, _waiting_lock(getattr(fcntl, name)))


# ------------------------------------------------------------------ file lock seam
_lock_wait = None


def on_lock_wait(fn):
    """fn is called each time this process would block on another one's file lock."""
    global _lock_wait
    _lock_wait = fn


def _waiting_lock(real):
    def lock(fd, op, *args):
        if _lock_wait is None or op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
            return real(fd, op, *args)
        while True:
            try:
                return real(fd, op | fcntl.LOCK_NB, *args)
            except OSError as e:
                if e.errno not in (11, 13):
                    raise
            _lock_wait()
    return lock


def _name_rng():
    _entropy["n"] += 1
    return random.Random(f"{_entropy['key']}:{_entropy['n']}")


# ------------------------------------------------------------------ long-lived processes
class Proc:
    """A simulated process with its own memory, serving calls to handler methods one at a time.

    While a call runs, code in the process may call up() to have the director run
    something (further steps, calls to other processes) before it goes on.
    """

    def __init__(self, handler):
        a, b = os.pipe()          # director -> process
        c, d = os.pipe()          # process -> director
        sys.stdout.flush()
        sys.stderr.flush()
        key = fork_key()
        pid = os.fork()
        if pid == 0:
            try:
                set_entropy(key)
                os.close(b)
                os.close(c)
                _serve(handler, a, d)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(80)
        os.close(a)
        os.close(d)
        self.pid, self.w, self.r = pid, b, c
        self.alive = True

    def _send(self, msg):
        blob = pickle.dumps(msg)
        _write_all(self.w, struct.pack("<Q", len(blob)) + blob)

    def _recv(self, timeout):
        end = shim.real_monotonic() + timeout
        buf = b""
        need = 8
        while len(buf) < need:
            left = end - shim.real_monotonic()
            if left <= 0 or not select.select([self.r], [], [], left)[0]:
                return ("timeout", timeout)
            b = os.read(self.r, 1 << 16 if need > 8 else 8 - len(buf))
            if not b:
                self._reap()
                return ("crashed", None) if self.code == shim.CRASH_CODE else ("died", self.code)
            buf += b
            if need == 8 and len(buf) == 8:
                need = 8 + struct.unpack("<Q", buf[:8])[0]
        return pickle.loads(buf[8:])

    def _reap(self):
        os.close(self.w)
        os.close(self.r)
        _, st = os.waitpid(self.pid, 0)
        self.code = os.waitstatus_to_exitcode(st)
        self.alive = False

    def start(self, name, *args):
        self._send((name, args))

    def wait(self, on_up=None, timeout=100.0):
        """(status, value); status ok, error (library exception), crashed, gate ..."""
        while True:
            st, val = self._recv(timeout)
            if st == "up":
                self._send(("down", on_up(val) if on_up else None))
                continue
            if st == "timeout":
                self.kill()
                raise Violation("hang", f"no progress within {timeout} s of real time")
            if st == "died":
                raise Violation("process-died", f"exit status {val}")
            if st == "violation":
                raise Violation(*val)
            if st == "harness":
                raise HarnessError(val)
            if st == "skip":
                raise Skip(val)
            return st, val

    def call(self, name, *args, on_up=None, timeout=100.0):
        """Value of the call; a library exception is a violation."""
        self.start(name, *args)
        st, val = self.wait(on_up, timeout)
        if st == "error":
            raise Violation("unexpected-exception", f"{name}: {val}")
        if st == "crashed":
            raise HarnessError("unexpected simulated crash")
        return val

    def try_call(self, name, *args, on_up=None, timeout=100.0):
        self.start(name, *args)
        return self.wait(on_up, timeout)

    def kill(self):
        if self.alive:
            os.kill(self.pid, signal.SIGKILL)
            self._reap()


_up_fds = None


def up(msg):
    """From inside a simulated process: let the director run something now."""
    r, w = _up_fds
    blob = pickle.dumps(("up", msg))
    _write_all(w, struct.pack("<Q", len(blob)) + blob)
    tag, val = _read_msg(r)
    if tag != "down":
        os._exit(82)
    return val


def _read_msg(r):
    def get(n):
        b = b""
        while len(b) < n:
            x = os.read(r, n - len(b))
            if not x:
                os._exit(0)
            b += x
        return b
    return pickle.loads(get(struct.unpack("<Q", get(8))[0]))


def _serve(handler, r, w):
    global _up_fds
    _up_fds = (r, w)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if isinstance(handler, type):
        handler = handler()
    while True:
        name, args = _read_msg(r)
        try:
            out = ("ok", getattr(handler, name)(*args))
        except Violation as v:
            out = ("violation", (v.kind, v.detail))
        except Skip as s:
            out = ("skip", str(s))
        except HarnessError as e:
            out = ("harness", str(e))
        except BaseException as e:  # noqa: BLE001
            if from_library(e):
                out = ("error", describe(e))
            else:
                out = ("harness", "".join(traceback.format_exception(e))[-3000:])
        blob = pickle.dumps(out)
        _write_all(w, struct.pack("<Q", len(blob)) + blob)
