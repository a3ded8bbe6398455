"""Deterministic scheduler for caller threads.

Every task is a real thread, but only the task holding the baton runs.  The baton
moves only at yield points (I/O events of the seam, or line / opcode trace events
inside the code under test) and only when the schedule says so:
``preempt`` is a list of [step, target]; at global step ``step`` the running task
hands over to task ``target`` (modulo the runnable ones).  A finished task hands
over to the lowest numbered runnable task, or as ``preempt`` says.
"""
import sys
import threading

from . import seam


class Sched(object):
    MAX_STEPS = 3000000

    def __init__(self, preempt=()):
        self.preempt = {}
        for step, target in preempt:
            self.preempt.setdefault(step, target)
        self.tasks = []
        self.step = 0
        self.current = None
        self.switches = 0
        self.error = None
        self.seq = 0
        self.order = []         # switch record, for the interleaving measure
        self.places = {}        # code location -> the steps at which a task was there
        self.main = threading.Semaphore(0)

    def stamp(self):
        self.seq += 1
        return self.seq

    def add(self, fn, trace=None):
        task = _Task(self, len(self.tasks), fn, trace)
        self.tasks.append(task)
        return task

    def runnable(self):
        return [t for t in self.tasks if not t.finished]

    def run(self):
        if not self.tasks:
            return
        for task in self.tasks:
            task.thread = threading.Thread(target=task.body, daemon=True)
            task.thread.start()
        first = self.tasks[self.preempt.get(-1, 0) % len(self.tasks)]
        self.current = first
        first.sem.release()
        self.main.acquire()
        for task in self.tasks:
            task.thread.join()
        if self.error is not None:
            raise self.error

    def yield_point(self):
        task = self.current
        if task is None or threading.get_ident() != task.ident:
            return
        step = self.step
        self.step += 1
        if step > self.MAX_STEPS:
            raise seam.HarnessError('step budget exhausted')
        target = self.preempt.get(step)
        if target is None:
            return
        others = [t for t in self.runnable() if t is not task]
        if not others:
            return
        self.hand_over(task, others[target % len(others)])

    def pause(self):
        """the current task stops until it is scheduled again"""
        task = self.current
        if task is None or threading.get_ident() != task.ident:
            return
        self.step += 1
        others = [t for t in self.runnable() if t is not task]
        if others:
            self.hand_over(task, others[(task.index + self.step) % len(others)])

    def block_turn(self):
        """the current task waits for a lock: let somebody else run"""
        task = self.current
        if task is None or threading.get_ident() != task.ident:
            return False
        others = [t for t in self.runnable() if t is not task]
        if not others:
            return False
        self.step += 1
        if self.step > self.MAX_STEPS:
            raise seam.HarnessError('step budget exhausted')
        task.blocked += 1
        if task.blocked > 20000:
            return False
        self.hand_over(task, others[(task.index + task.blocked) % len(others)])
        return True

    def hand_over(self, task, other):
        self.switches += 1
        self.order.append((self.step, other.index))
        self.current = other
        tracer = sys.gettrace()
        other.sem.release()
        task.sem.acquire()
        if tracer is not None and sys.gettrace() is None:
            sys.settrace(tracer)


class _Task(object):
    def __init__(self, sched, index, fn, trace):
        self.sched, self.index, self.fn, self.trace = sched, index, fn, trace
        self.sem = threading.Semaphore(0)
        self.finished = False
        self.blocked = 0
        self.ident = None

    def body(self):
        self.sem.acquire()
        self.ident = threading.get_ident()
        sched = self.sched
        try:
            if self.trace is not None:
                sys.settrace(make_tracer(sched, self.trace))
            try:
                self.fn()
            finally:
                if self.trace is not None:
                    sys.settrace(None)
        except BaseException as exc:    # reported by run()
            if sched.error is None:
                sched.error = exc
        self.finished = True
        left = sched.runnable()
        if left:
            nxt = left[sched.preempt.get(-2 - self.index, 0) % len(left)]
            sched.order.append((sched.step, nxt.index))
            sched.current = nxt
            nxt.sem.release()
        else:
            sched.current = None
            sched.main.release()


def _opcode_events():
    # the interpreter delivers opcode events only to tracers set after some frame first asked for
    # them: ask once, so that the first run of a process sees the same events as every later one
    sys._getframe().f_trace_opcodes = True


_opcode_events()


def make_tracer(sched, mode):
    prefix = seam.SUT_PREFIX
    opcodes = mode == 'opcode'

    def local(frame, event, arg):
        if event == 'line' and not opcodes or event == 'opcode':
            where = frame.f_code.co_filename, frame.f_lineno
            steps = sched.places.get(where)
            if steps is None:
                sched.places[where] = [sched.step]
            elif len(steps) < 60:
                steps.append(sched.step)
            sched.yield_point()
        return local

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(prefix):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return local
    return tracer
