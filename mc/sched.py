"""Controlled execution of the real code: thread schedules and crash points.

The interpreter is stopped before the instructions of the code under test that can touch shared state (attributes, globals,
items, calls, arithmetic).  An instruction that only moves locals and constants around commutes with everything another thread
does, so no schedule is lost by not switching there.
"""
import dis
import sys
import threading
import types

from .core import REPO

QUIET = {"CACHE", "RESUME", "NOP", "POP_TOP", "PUSH_NULL", "COPY", "SWAP", "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR",
         "STORE_FAST", "DELETE_FAST", "LOAD_CONST", "RETURN_CONST", "RETURN_VALUE", "KW_NAMES", "PRECALL", "JUMP_FORWARD",
         "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_NONE",
         "POP_JUMP_IF_NOT_NONE", "EXTENDED_ARG", "BUILD_TUPLE", "BUILD_LIST", "BUILD_SLICE", "BUILD_MAP", "BUILD_STRING",
         "BUILD_CONST_KEY_MAP", "MAKE_FUNCTION", "MAKE_CELL", "COPY_FREE_VARS", "END_FOR", "LIST_APPEND", "LOAD_CLOSURE",
         "FORMAT_VALUE", "IS_OP", "PUSH_EXC_INFO", "POP_EXCEPT", "CHECK_EXC_MATCH", "RERAISE", "LIST_EXTEND", "LIST_TO_TUPLE",
         "BEFORE_WITH", "WITH_EXCEPT_START", "RETURN_GENERATOR", "YIELD_VALUE"}
_codes = {}
sys._getframe().f_trace_opcodes = True      # tells the interpreter that opcode events will be wanted
GRAINS = ("fine", "line", "call")


def _loud(code, names):
    """offsets of the instructions to stop at"""
    if code not in _codes:
        keep, module = set(), False
        for i in dis.get_instructions(code):
            quiet = i.opname in QUIET
            if i.opname == "LOAD_GLOBAL":       # modules, functions and classes are not replaced while a program runs
                v = names.get(i.argval, min)
                quiet = isinstance(v, types.ModuleType) or callable(v)
                module = isinstance(v, types.ModuleType)
            elif i.opname == "LOAD_ATTR" and module:
                quiet = isinstance(i.argval, str)
                module = False
            elif i.opname != "CACHE":
                module = False
            if not quiet:
                keep.add(i.offset)
        _codes[code] = frozenset(keep)
    return _codes[code]


def tracer(step, grain="fine"):
    """a trace function that calls step() before every loud instruction, every line or in every call of the code under test"""
    fine, lines = grain == "fine", grain == "line"

    def local(frame, event, arg):
        if event == "opcode":
            if frame.f_lasti in _loud(frame.f_code, frame.f_globals):
                step()
        elif event == "line" and lines:
            step()
        return local

    def enter(frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO):
            return None
        if grain == "call":
            step()
            return None
        frame.f_trace_opcodes = fine
        frame.f_trace_lines = lines
        return local
    return enter


class Interrupt(BaseException):
    """the crash"""


class _Kill(BaseException):
    pass


def steps_of(body, grain="fine"):
    """how many points the body passes when it runs alone"""
    n = [0]

    def step():
        n[0] += 1
    sys.settrace(tracer(step, grain))
    try:
        body()
    finally:
        sys.settrace(None)
    return n[0]


def crash(body, at, error=Interrupt, grain="fine"):
    """run the body and raise at its at-th point; True if it got there (an error the body lets through, included)"""
    n = [0]

    def step():
        n[0] += 1
        if n[0] == at:
            sys.settrace(None)
            raise error("crash point")
    sys.settrace(tracer(step, grain))
    try:
        body()
    except error:
        if n[0] < at:
            raise
    finally:
        sys.settrace(None)
    return n[0] >= at


class Threads:
    """bodies in threads of their own, of which one runs at a time"""

    def __init__(self, bodies, grain="fine", patience=3.0):
        self.n = len(bodies)
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.back = threading.Semaphore(0)
        self.left = [0] * self.n            # steps a thread may take before it stops, or None
        self.done = [False] * self.n
        self.taken = [0] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.blocked = False
        self.patience = patience
        self.grain = grain
        self.threads = [threading.Thread(target=self._run, args=(k, b), daemon=True) for k, b in enumerate(bodies)]
        for t in self.threads:
            t.start()

    def _run(self, k, body):
        def step():
            if self.left[k] is not None:
                if self.left[k] == 0:
                    self.back.release()
                    self.go[k].acquire()
                if self.left[k] is not None:
                    self.left[k] -= 1
            self.taken[k] += 1
        self.go[k].acquire()
        sys.settrace(tracer(step, self.grain))
        try:
            self.result[k] = body()
        except BaseException as e:
            self.error[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.back.release()

    def run(self, k, steps):
        """let thread k take that many steps (None: to its end); False if it waits for another thread"""
        if self.done[k] or self.blocked:
            return True
        self.left[k] = steps
        self.go[k].release()
        if not self.back.acquire(timeout=self.patience):
            self.blocked = True         # it waits for a lock another thread has: no schedule of ours any more
            return False
        return True

    def finish(self):
        if self.blocked:
            for k in range(self.n):
                self.left[k] = None
                self.go[k].release()
        else:
            for k in range(self.n):
                self.run(k, None)
                if self.blocked:
                    return self.finish()
        for t in self.threads:
            t.join(60)
        return not any(t.is_alive() for t in self.threads)


def schedule(bodies, plan, grain="fine"):
    """run the bodies by a plan [(thread, steps), ...], the rest to the end in order; returns the finished Threads"""
    t = Threads(bodies, grain)
    for k, steps in plan:
        t.run(k, steps)
    if not t.finish():
        raise RuntimeError("the threads do not end")
    return t
