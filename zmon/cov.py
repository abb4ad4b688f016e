"""Lines of the code under test that an execution reached (sys.monitoring: each line is reported once, then its event is disabled)."""
from __future__ import annotations
import sys

_lines: dict[str, set] = {}


def start(root):
    """Watch every module loaded from `root` from now on; does nothing where the interpreter cannot."""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    root = root.rstrip('/') + '/zcollection/'
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'zmon')
    except ValueError:
        return

    def line(code, lineno):
        if code.co_filename.startswith(root):
            _lines.setdefault(code.co_filename[len(root):], set()).add(lineno)
        return mon.DISABLE

    def begin(code, offset):
        if code.co_filename.startswith(root):
            mon.set_local_events(mon.COVERAGE_ID, code, mon.events.LINE)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, begin)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


def lines():
    return {f: sorted(n) for f, n in list(_lines.items())}
