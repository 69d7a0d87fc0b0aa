"""Interrupts: raise an exception from the trace function at the k-th event of
library code - what a signal handler, a watchdog or the allocator does."""
import sys

from . import core


class Interrupt:
    """Context manager.  With at=None it only counts events."""

    def __init__(self, at=None, exc=KeyboardInterrupt, opcodes=False,
                 cap=core.STEP_CAP, depth=0):
        self.at, self.exc, self.opcodes, self.cap = at, exc, opcodes, cap
        self.depth = depth
        self.n = 0
        self.fired = False
        self.where = None

    def __enter__(self):
        want = 'opcode' if self.opcodes else 'line'

        def tick():
            self.n += 1
            if self.at is not None and self.n == self.at:
                frame = sys._getframe(2)
                self.fired = True
                self.where = '%s:%s' % (frame.f_code.co_name, frame.f_lineno)
                raise self.exc('simulated')
            if self.n > self.cap:
                raise core.Hang('steps')

        def local(frame, event, arg):
            if event == want:
                tick()
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(core.FCA_DIR):
                return None
            if self.depth < 0:
                return core.after_writes(frame, self.depth < -1, tick)
            if self.depth and core.deeper(frame, self.depth):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        # an exception inside the finaliser of a dropped generator is discarded
        # by the interpreter, whatever the library does
        self.discarded = False

        def unraisable(u):
            if isinstance(u.exc_value, self.exc):
                self.discarded = True
        self._old_hook = sys.unraisablehook
        sys.unraisablehook = unraisable
        self._old = sys.gettrace()
        sys.settrace(tracer)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        sys.unraisablehook = self._old_hook
        if self.discarded:
            self.fired = False
        return False
