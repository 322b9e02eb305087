"""Deterministic scheduling of real threads at the statements of the library's code.

Exactly one managed thread runs at a time.  A trace function counts the executed lines of the
library; the plan says after how many of them which other thread goes on.  Locks that the library
creates are replaced by ones the scheduler knows (a thread waiting for one is not runnable).
"""
import _thread
import os
import sys
import threading

from . import core

_real_lock, _real_rlock = threading.Lock, threading.RLock
_active = None


class CoopLock:
    """A lock (reentrant or not) whose waiting is known to the scheduler."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._real = (_real_rlock if reentrant else _real_lock)()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s and s.managed()
        if not me:
            return self._real.acquire(blocking, timeout)
        tries = 0
        while not self._real.acquire(False):
            if not blocking or (timeout >= 0 and tries > 3):
                return False
            tries += 1
            s.block(self)
        self._owner = me
        return True

    def release(self):
        self._real.release()
        if _active:
            _active.unblock(self)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._real.locked()

    def _is_owned(self):
        return self._real._is_owned()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def _factory(real, reentrant):
    def make():
        f = sys._getframe(1).f_code.co_filename
        return CoopLock(reentrant) if f.startswith(core.REPO + "/") else real()
    return make


def install():
    """Before the library is imported."""
    threading.Lock = _factory(_real_lock, False)
    threading.RLock = _factory(_real_rlock, True)


_HOT_OPS = {"STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "STORE_SLICE", "DELETE_ATTR", "DELETE_GLOBAL", "DELETE_SUBSCR"}
_HOT_CALLS = {"append", "pop", "update", "setdefault", "clear", "add", "remove", "extend", "popitem", "insert", "seek", "read",
              "discard", "write", "close", "sort", "acquire", "release", "setattr", "delattr", "__setattr__", "__setitem__"}
_hot = {}


def hot_lines(code):
    """Lines of a code object that write to something other threads may see."""
    out = _hot.get(code)
    if out is None:
        import dis
        out, line = set(), None
        for i in dis.get_instructions(code):
            line = i.positions.lineno or line
            if i.opname in _HOT_OPS or (i.opname in ("LOAD_ATTR", "LOAD_METHOD", "LOAD_GLOBAL") and i.argval in _HOT_CALLS):
                out.add(line)
        _hot[code] = out
    return out


class Sched:
    def __init__(self, switches, focus=(), hot=False):
        self.switches = [s[:2] for s in switches for _ in range(s[2] if len(s) > 2 else 1)]
        self.hot = hot
        self.focus = tuple(focus)
        self.pos = 0
        self.n = 0                     # library lines counted
        self.due = self._gap()
        self.threads = []
        self.cur = None
        self.log = []
        self.verdict = None
        self.done = _thread.allocate_lock()
        self.done.acquire()

    def _gap(self):
        return self.n + self.switches[self.pos][0] if self.pos < len(self.switches) else None

    def managed(self):
        t = self.cur
        return t if t is not None and t["id"] == _thread.get_ident() else None

    # ---------------------------------------------------------------- tracing
    def _global(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(core.REPO + "/"):
            return None
        if self.focus and not name.endswith(self.focus):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" and (not self.hot or frame.f_lineno in hot_lines(frame.f_code)):
            self.n += 1
            if self.due is not None and self.n >= self.due:
                self._switch(frame)
        return self._local

    def _switch(self, frame):
        # never in the middle of an import: its locks are not known here
        if _importing(frame) or any(t["imp"] for t in self.threads):
            return
        pick = self.switches[self.pos][1]
        self.pos += 1
        self.due = self._gap()
        others = [t for t in self.threads if t is not self.cur and t["state"] == "run"]
        if others:
            t = others[pick % len(others)]
            self.log.append((self.n, os.path.basename(frame.f_code.co_filename), frame.f_lineno, self.cur["k"], t["k"]))
            self._go(t)

    # ---------------------------------------------------------------- baton
    def _go(self, t):
        me = self.cur
        self.cur = t
        t["gate"].release()
        me["gate"].acquire()

    def block(self, lock):
        me = self.cur
        me["state"], me["on"], me["imp"] = "blocked", lock, _importing(sys._getframe())
        others = [t for t in self.threads if t["state"] == "run"]
        if not others:
            import traceback
            st = sys._current_frames()
            self.verdict = ("deadlock", [f"thread {t['k']}: " + " < ".join(
                f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(traceback.extract_stack(st[t["id"]]))
                if x.filename.startswith(core.REPO + "/")) for t in self.threads if t["state"] == "blocked"])
            self.done.release()
            _forever()
        if any(t["imp"] for t in self.threads) and lock._owner in others:
            others = [lock._owner]     # the owner goes on alone until the import can
        self.log.append((self.n, "blocked", 0, me["k"], others[0]["k"]))
        self._go(others[0])
        me["state"], me["on"], me["imp"] = "run", None, False

    def unblock(self, lock):
        for t in self.threads:
            if t["state"] == "blocked" and t["on"] is lock:
                t["state"] = "run"
                if t["imp"]:
                    self.log.append((self.n, "import goes on", 0, self.cur["k"], t["k"]))
                    self._go(t)
                    return

    # ---------------------------------------------------------------- running
    def run(self, fns, timeout=45):
        """Run the functions in threads of their own; returns [("ok", value) | ("err", exception)]."""
        global _active
        res = [None] * len(fns)

        def main(t, fn):
            t["id"] = _thread.get_ident()
            t["ready"].release()
            t["gate"].acquire()
            sys.settrace(self._global)
            try:
                res[t["k"]] = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                res[t["k"]] = ("err", e)
            finally:
                sys.settrace(None)
            t["state"] = "done"
            rest = [x for x in self.threads if x["state"] == "run"]
            if rest:
                self.cur = rest[0]
                rest[0]["gate"].release()
            elif any(x["state"] == "blocked" for x in self.threads):
                self.verdict = ("deadlock", ["a thread ended holding a lock"])
                self.done.release()
            else:
                self.done.release()

        for k, fn in enumerate(fns):
            t = dict(k=k, state="run", on=None, imp=False, id=None, gate=_thread.allocate_lock(), ready=_thread.allocate_lock())
            t["gate"].acquire()
            t["ready"].acquire()
            self.threads.append(t)
            _thread.start_new_thread(main, (t, fn))
            t["ready"].acquire()
        _active = self
        self.cur = self.threads[0]
        self.cur["gate"].release()
        if not self.done.acquire(timeout=timeout):
            self.verdict = ("hang", [f"no progress within {timeout} s"])
        _active = None
        if self.verdict:
            raise core.Violation(self.verdict[0], "; ".join(self.verdict[1]))
        return res


def _importing(f):
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


def _forever():
    while True:
        lk = _thread.allocate_lock()
        lk.acquire()
        lk.acquire()
