"""Raise an exception inside the library at a chosen executed line."""
import sys

from . import core, shim
from .threads import hot_lines


class Cancelled(BaseException):
    """A timeout or cancellation raised from outside."""


KINDS = {"kbd": KeyboardInterrupt, "cancel": Cancelled}
_PREFIX = core.REPO + "/dascore/"
_TOOL = 4
_mon = sys.monitoring
_EV = _mon.events
_marked = set()


def _name(code, line):
    return f"{code.co_filename[len(_PREFIX):]}:{line} {code.co_name}"


def call(fn, at=None, kind="kbd"):
    """(outcome, value, lines executed); outcome is ok, err or interrupted.

    at is None (never; lines are not counted), a count of executed lines, or [place, k]: the k-th
    time at that line.
    """
    if at is None:
        return _plain(fn, []) + (0,)
    left = at if isinstance(at, int) else -1
    place, nth = at if isinstance(at, (list, tuple)) else (None, 0)
    number = int(place.split(":")[1].split()[0]) if place else 0
    count = seen = 0
    hit = []

    def on_line(code, line):
        nonlocal count, seen
        if hit:
            return
        count += 1
        if line == number and _name(code, line) == place:
            seen += 1
        if count == left or seen == nth > 0:
            hit.append(_name(code, line))
            raise KINDS[kind]("simulated")

    return _watched(fn, on_line, hit) + (count,)


def survey(fn):
    """(outcome, value, how often each line ran, moments after a change of a file, lines after a change in memory)."""
    runs, moments, after = {}, [], {}
    changes = shim.changes
    files = changes.value
    hot = False

    def on_line(code, line):
        nonlocal files, hot
        key = code, line
        n = runs[key] = runs.get(key, 0) + 1
        if changes.value != files:
            moments.append((key, n))
            files = changes.value
        if hot:
            after.setdefault(key, n)
        hot = line in hot_lines(code)

    out = _watched(fn, on_line, [])
    return out + (sorted((_name(*k), n) for k, n in runs.items()), [(_name(*k), n) for k, n in moments],
                  sorted((_name(*k), n) for k, n in after.items()))


def pick(where, how, u, v):
    """A moment [place, k] out of a survey: how is any, memory or file; u and v are fractions."""
    runs, moments, after = where
    if how == "file" and moments:
        return list(moments[int(u * len(moments))])
    if how != "any" and after:
        loc, n = after[int(u * len(after))]
        return [loc, n if v < 0.4 else 1 + int(v * dict(runs)[loc])]
    if not runs:
        return None
    loc, n = runs[int(u * len(runs))]
    return [loc, 1 + int(v * n)]


def _start(code, offset):
    if code.co_filename.startswith(_PREFIX) and code.co_name != "<module>" and code not in _marked:
        _marked.add(code)
        _mon.set_local_events(_TOOL, code, _EV.LINE)
    return _mon.DISABLE


def _watched(fn, on_line, hit):
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "vsim")
        _mon.register_callback(_TOOL, _EV.PY_START, _start)
    _mon.register_callback(_TOOL, _EV.LINE, on_line)
    for code in _marked:
        _mon.set_local_events(_TOOL, code, _EV.LINE)
    _mon.set_events(_TOOL, _EV.PY_START)
    _mon.restart_events()
    try:
        return _plain(fn, hit)
    finally:
        _mon.set_events(_TOOL, 0)
        for code in _marked:
            _mon.set_local_events(_TOOL, code, 0)
        _mon.register_callback(_TOOL, _EV.LINE, None)


def _plain(fn, hit):
    try:
        return "ok", fn()
    except tuple(KINDS.values()):
        return "interrupted", hit[0] if hit else "?"
    except Exception as e:  # noqa: BLE001
        return "err", e
