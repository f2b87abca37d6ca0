"""Interruption of the code under test: an exception raised at the n-th line (or bytecode instruction) it executes.

Built on sys.monitoring: locations outside the package are switched off as they are met, so that only the package's own
progress is counted, and the count is a function of the schedule alone.
"""
import dis
import sys

import numpy as np

from . import boot


class Interrupt(KeyboardInterrupt):
    pass


class OutOfMemory(MemoryError):
    pass


class LibraryFailure(np.linalg.LinAlgError):
    pass


class Failure(RuntimeError):
    pass


KINDS = {'interrupt': Interrupt, 'memory': OutOfMemory, 'library': LibraryFailure, 'failure': Failure}
INJECTED = tuple(KINDS.values())
TOOL = 3
mon = sys.monitoring


_idle = {}


def idle(code):
    """lines which do nothing (`try:`), at which nothing can fail: they may lie outside of the enclosing handlers"""
    got = _idle.get(code)
    if got is None:
        does = {}
        line = None
        for i in dis.get_instructions(code):
            if i.positions.lineno is not None:
                line = i.positions.lineno
            does.setdefault(line, set()).add(i.opname)
        got = _idle[code] = set(k for k, v in does.items() if v <= {'NOP'})
    return got


class Points(object):
    """with Points(at, kind): ... counts events; raises at event number `at` (None: never), counted
    within the function named `func` when one is given"""
    root = None

    def __init__(self, at=None, kind='interrupt', instructions=False, func=None):
        self.at = at
        self.func = func
        self.per = {}
        self.kind = kind
        self.n = 0
        self.where = None
        self.instructions = instructions
        if Points.root is None:
            Points.root = boot.REPO + '/phasor/'

    def idles(self, code, where):
        if self.instructions:
            return code.co_code[where] == dis.opmap['NOP']
        return where in idle(code)

    def event(self, code, where):
        if not code.co_filename.startswith(self.root):
            return mon.DISABLE
        me = code.co_filename, code.co_qualname
        if self.func is not None and me != self.func:
            return mon.DISABLE
        self.n += 1
        n = self.per[me] = self.per.get(me, 0) + 1
        if self.at is not None and (n if self.func is not None else self.n) > self.at and not self.idles(code, where):
            self.at = None
            mon.set_events(TOOL, 0)
            self.where = '%s:%s %s' % (code.co_filename[len(self.root):], where if not self.instructions else 'op%d' % where, code.co_name)
            raise KINDS[self.kind]('injected at event %d' % self.n)

    def __enter__(self):
        ev = mon.events.INSTRUCTION if self.instructions else mon.events.LINE
        mon.use_tool_id(TOOL, 'phasor-sim')
        mon.register_callback(TOOL, ev, self.event)
        mon.restart_events()
        mon.set_events(TOOL, ev)
        self.ev = ev
        return self

    def __exit__(self, *exc):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, self.ev, None)
        mon.free_tool_id(TOOL)
        return False
