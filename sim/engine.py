"""One simulated run: plan (JSON) -> verdict, event log, statistics.

A plan is everything that decides an execution: the workload, the knobs of the
simulated platform, the faults {op, at, err, keep, sticky} and the preemptions
[step, target].  Running a plan twice gives the same event log.
"""
import contextlib
import gc
import hashlib
import io
import json
import os
import random
import signal
import sys
import traceback
import warnings

from . import seam, sched as schedmod, sut


class Violation(Exception):
    def __init__(self, code, message):
        Exception.__init__(self, '%s: %s' % (code, message))
        self.code, self.message = code, message


class Hang(BaseException):
    pass


class Outcome(object):
    """what one operation of the code under test did"""

    def __init__(self, kind, value=None, exc=None, warned=(), op=None, output=''):
        self.kind = kind            # ok | error | intr | crash
        self.value, self.exc, self.warned, self.op, self.output = value, exc, list(warned), op, output

    @property
    def ok(self):
        return self.kind == 'ok'

    def describe(self):
        if self.kind == 'ok':
            return 'returned'
        if self.kind == 'crash':
            return 'crashed'
        return 'raised %s: %s' % (type(self.exc).__name__, str(self.exc)[:300])

    @property
    def faulted(self):
        return bool(self.op.fired) or bool(self.op.sticky)


class Run(object):
    """context handed to the property modules"""

    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.evals = 0
        self.rng = random.Random('run:%s' % plan.get('seed', 0))
        # paths get written to files: their length must not depend on the worker
        root = os.path.join(scratch, 'w'.ljust(max(1, 63 - len(scratch)), '_'))
        if os.path.isdir(root):
            seam.real('rmtree')(root)
        seam.real('makedirs')(root)
        faults = plan.get('faults', [])
        journal = any(f['err'].startswith('power') for f in faults)
        self.world = seam.World(root, plan.get('knobs'), faults, plan.get('seed', 0), journal)
        self.procs = {}
        self.op_count = 0
        self.states = set()
        self.checked = 0
        self.home = os.path.join(root, 'home')

    # -- processes --------------------------------------------------------------
    def proc(self, name='main'):
        proc = self.procs.get(name)
        if proc is None or not proc.alive:
            proc = self.world.spawn(name)
            self.procs[name] = proc
        return proc

    def load(self):
        """a fresh copy of the code under test, as a new process has it"""
        home = os.path.join(self.scratch, 'home0')
        seam.real('makedirs')(os.path.join(home, '.config', 'dispersion'))
        return sut.load(home)

    def alive(self, name='main'):
        proc = self.procs.get(name)
        return proc is not None and proc.alive

    def kill(self, name):
        if name in self.procs:
            self.procs[name].alive = False

    def durable(self):
        """everything set up so far is on disk"""
        if self.world.journal is not None:
            self.world.journal.snapshot()

    # -- running code under test --------------------------------------------------
    def call(self, op_id, fn, proc='main'):
        """run fn() as operation op_id of the simulated process"""
        world = self.world
        op = seam.OpCtx(str(op_id), self.proc(proc))
        self.op_count += 1
        out = io.StringIO()
        single = world.sched is None
        warned = []
        world.log.append((op.id, 'begin'))
        world.enter(op)
        kind, value, exc = 'ok', None, None
        calls = single and self.plan.get('calls')
        try:
            if calls:
                seam.watch_calls(world, op)
            if single:
                with warnings.catch_warnings(record=True) as rec, \
                        contextlib.redirect_stdout(out):
                    warnings.simplefilter('always')
                    try:
                        value = fn()
                    finally:
                        warned = [str(w.message) for w in rec]
            else:
                value = fn()
        except seam.SimCrash as err:
            kind, exc = 'crash', err
        except KeyboardInterrupt as err:
            kind, exc = 'intr', err
        except seam.HarnessError:
            raise
        except Exception as err:
            kind, exc = 'error', err
        finally:
            if calls:
                seam.ignore_calls()
            world.leave()
        if not op.proc.alive:
            kind, value = 'crash', None
        if exc is not None:
            exc.__traceback__ = None if kind != 'error' else exc.__traceback__
        world.log.append((op.id, 'end', kind, type(exc).__name__ if exc is not None else ''))
        return Outcome(kind, value, exc, warned, op, out.getvalue())

    def must(self, op_id, fn, what, proc='main', code='must-succeed'):
        """an operation that has to succeed (no fault is injected into it)"""
        out = self.call(op_id, fn, proc)
        if not out.ok:
            if out.faulted:
                raise seam.HarnessError('fault injected into %s' % op_id)
            raise Violation(code, '%s: %s' % (what, out.describe()) + _where(out.exc))
        return out.value

    def check(self, cond, code, message):
        self.checked += 1
        if not cond:
            raise Violation(code, message() if callable(message) else message)

    def state(self, *parts):
        """record a reached abstract state"""
        self.states.add(hashlib.blake2b(repr(parts).encode('utf-8', 'surrogatepass'),
                                        digest_size=6).hexdigest())

    # -- tasks ------------------------------------------------------------------
    def concurrently(self, fns, trace=None):
        world = self.world
        sched = schedmod.Sched(self.plan.get('preempt', ()))
        for fn in fns:
            sched.add(fn, trace)
        world.sched = sched
        stdout, sys.stdout = sys.stdout, io.StringIO()
        try:
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter('always')
                filters, show = str(warnings.filters), warnings.showwarning
                sched.run()
                # whether warnings are handled after the run as before it
                self.muted = str(warnings.filters) != filters or warnings.showwarning is not show
        finally:
            self.warned = [str(w.message) for w in rec]
            sys.stdout = stdout
            world.sched = None
            self.last_sched = sched
        return sched


def _where(exc):
    if exc is None or exc.__traceback__ is None:
        return ''
    frames = traceback.extract_tb(exc.__traceback__)
    for frame in reversed(frames):
        if seam.SUT_PREFIX and frame.filename.startswith(seam.SUT_PREFIX):
            return ' [%s in %s]' % (os.path.basename(frame.filename), frame.name)
    return ''


class Result(object):
    __slots__ = ('status', 'code', 'message', 'digest', 'trace', 'steps', 'fired', 'states',
                 'ops', 'events', 'probes', 'checked', 'order', 'clock', 'log', 'detail', 'places')


def _alarm(signum, frame):
    raise Hang()


RUN_LIMIT = 60
_SETTINGS = {}


def _fresh_process():
    """settings that code under test may leave changed never reach the next run"""
    import numpy as np
    import decimal
    if not _SETTINGS:
        _SETTINGS.update(err=np.geterr(), opts=np.get_printoptions(), cwd=os.getcwd(), env=dict(os.environ),
                         intr=signal.getsignal(signal.SIGINT), prec=decimal.getcontext().prec)
    random.seed(1)
    np.random.seed(1)
    np.seterr(**_SETTINGS['err'])
    np.set_printoptions(**_SETTINGS['opts'])
    os.chdir(_SETTINGS['cwd'])
    if dict(os.environ) != _SETTINGS['env']:
        os.environ.clear()
        os.environ.update(_SETTINGS['env'])
    if signal.getsignal(signal.SIGINT) is not _SETTINGS['intr']:
        signal.signal(signal.SIGINT, _SETTINGS['intr'])
    decimal.getcontext().prec = _SETTINGS['prec']


def execute(module, plan, scratch, keep_log=False):
    """run the plan; the result status is ok | violation | error"""
    res = Result()
    res.status, res.code, res.message, res.detail = 'ok', '', '', ''
    _fresh_process()
    run = Run(plan, scratch)
    world = run.world
    old_home = os.environ.get('HOME')
    os.environ['HOME'] = run.home
    old_handler = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT)
    seam.activate(world)
    try:
        try:
            module.execute(run, plan)
        finally:
            signal.alarm(0)
            seam.activate(None)
    except Violation as err:
        res.status, res.code, res.message = 'violation', err.code, err.message
    except Hang:
        res.status, res.code, res.message = 'violation', 'hang', \
            'no answer within %d s of a run that takes milliseconds' % RUN_LIMIT
    except seam.HarnessError as err:
        res.status, res.code, res.message = 'error', 'harness', str(err)
        res.detail = traceback.format_exc()
    except (OSError, MemoryError) as err:
        res.status, res.code, res.message = 'error', 'environment', repr(err)
        res.detail = traceback.format_exc()
    except Exception as err:
        # the oracles only touch results of the code under test; on the pinned
        # tree this does not happen, so the results have an impossible shape
        res.status, res.code = 'violation', 'malformed-result'
        res.message = repr(err)
        res.detail = traceback.format_exc()
    finally:
        signal.signal(signal.SIGALRM, old_handler)
        if old_home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = old_home
    res.trace = world.trace
    sched = getattr(run, 'last_sched', None)
    res.steps = sched.step if sched else 0
    res.places = list(sched.places.values()) if sched else []
    res.order = sched.order if sched else []
    res.fired = world.fired
    res.states = run.states
    res.ops = run.op_count
    res.events = world.events
    res.probes = world.probes
    res.checked = run.checked
    res.clock = world.elapsed
    text = json.dumps([world.log, res.order, res.status, res.code], default=str)
    text = text.replace(run.world.root, '<root>')
    res.digest = hashlib.sha256(text.encode('utf-8', 'surrogatepass')).hexdigest()[:24]
    res.log = world.log if keep_log else None
    return res


# -- placing faults ---------------------------------------------------------------
def place_faults(trace, rng, ops=None, errs=None, kinds=None, count=1, rel=None):
    """choose fault points among the events of a dry run"""
    points = [e for e in trace
              if (ops is None or e[0] in ops) and (kinds is None or e[2] in kinds)
              and (rel is None or rel(e[3]))]
    faults = []
    if not points:
        return faults
    for _ in range(count):
        # a rare kind of step must not drown in hundreds of reads: pick the kind first
        kind = rng.choice(sorted({e[2] for e in points}))
        op_id, ordinal, kind, _rel, _size = rng.choice([e for e in points if e[2] == kind])
        choice = [e for e in seam.FAULTS_AT.get(kind, []) if errs is None or e in errs]
        if not choice:
            continue
        flt = {'op': op_id, 'at': ordinal, 'err': rng.choice(choice)}
        if kind == 'write' or flt['err'].startswith('power'):
            flt['keep'] = rng.choice([0, 0, 1, 50, 99, 100, rng.randint(0, 100)]) \
                if not flt['err'].startswith('power') else rng.randint(0, 10**6)
        if flt['err'] in seam.ERRNO and rng.random() < 0.3:
            flt['sticky'] = True
        faults.append(flt)
    return faults


def follow_up(faults, rng):
    """a second fault shortly after the first, e.g. in the clean-up path"""
    if faults and rng.random() < 0.3:
        first = rng.choice(faults)
        faults.append({'op': first['op'], 'at': first['at'] + rng.randint(1, 4),
                       'err': rng.choice(['eio', 'intr', 'crash', 'eacces', 'enospc']), 'keep': 0})
    return faults


def place_preempts(steps, rng, tasks, places=()):
    """a sparse schedule over a run with that many yield points

    ``places``: the steps of every code location, so that each location is as likely a place to
    switch as any other, however often the others are passed"""
    if steps <= 0:
        return [[-1, rng.randrange(tasks)]]
    style = rng.random()
    out = [[-1, rng.randrange(tasks)]]
    if style < 0.15:
        every = rng.choice([1, 2, 3, 5])
        # steps shrink or grow with the schedule; cover generously
        for step in range(rng.randrange(every), min(int(steps * 1.2) + 4, 4000), every):
            out.append([step, rng.randrange(tasks)])
    elif places and style < 0.6:
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            out.append([rng.choice(rng.choice(places)), rng.randrange(tasks)])
    else:
        count = rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
        for _ in range(count):
            out.append([rng.randrange(int(steps * 1.1) + 2), rng.randrange(tasks)])
    for task in range(tasks):
        if rng.random() < 0.3:
            out.append([-2 - task, rng.randrange(tasks)])
    return sorted(out)


def random_knobs(rng, small=True):
    """platform parameters varied per run"""
    knobs = {'list_seed': rng.randrange(10**6)}
    if rng.random() < (0.7 if small else 0.4):
        knobs['bufsize'] = rng.choice([16, 64, 100, 256, 512, 1024, 4096])
    if rng.random() < 0.4:
        knobs['tick'] = rng.choice([0.0, 0.0, 0.02, 1.5, -1.5, -3600.0])
    if rng.random() < 0.5:
        knobs['read_chunk'] = rng.choice([1, 3, 7, 64, 100, 1000]) if small else rng.choice([64, 100, 1000])
    if rng.random() < 0.4:
        knobs['encoding'] = rng.choice(['cp1252', 'latin-1', 'ascii', 'utf-16', 'cp437'])
    return knobs
