"""The seam between the code under test and the operating system.

install() must run before numpy/pandas/dispersion are imported (numpy keeps a
reference to ``open``).  It replaces the file, directory, clock, randomness and
process-identity functions Python code reaches with wrappers that pass straight
through unless a World is active and the path lies inside the root of that World.
Inside a World every I/O step is an *event*: it is counted per operation, logged,
is a scheduling point, and is where faults are injected.

Nothing in the code under test knows about this module.
"""
import builtins
import errno
import io
import os
import random
import shutil
import stat as statmod
import sys
import tempfile
import threading
import time

_real = {}
WORLD = None            # the active World, or None
_tls = threading.local()


class SimCrash(BaseException):
    """the simulated process dies here"""


class HarnessError(Exception):
    """the simulator itself is at fault (never a verdict)"""


ERRNO = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES,
         'emfile': errno.EMFILE, 'erofs': errno.EROFS, 'edquot': errno.EDQUOT,
         'estale': errno.ESTALE, 'enoent': errno.ENOENT, 'eintr_': errno.EINTR}

# which fault kinds make sense at which event
FAULTS_AT = {
    'open_r': ['eio', 'eacces', 'emfile', 'intr', 'mem', 'crash'],
    'open_w': ['enospc', 'eacces', 'emfile', 'erofs', 'intr', 'mem', 'crash', 'power'],
    'read': ['eio', 'estale', 'intr', 'mem', 'crash'],
    'write': ['enospc', 'eio', 'edquot', 'intr', 'mem', 'crash', 'power'],
    'trunc': ['eio', 'intr', 'crash', 'power'],
    'close': ['eio', 'enospc', 'intr', 'crash', 'power'],
    'fsync': ['eio', 'enospc', 'intr', 'crash', 'power'],
    'rename': ['eio', 'enospc', 'eacces', 'intr', 'intr_after', 'crash', 'crash_after', 'power', 'power_after'],
    'unlink': ['eio', 'eacces', 'intr', 'intr_after', 'crash', 'crash_after', 'power', 'power_after'],
    'mkdir': ['enospc', 'eacces', 'erofs', 'intr', 'crash', 'crash_after', 'power'],
    'rmdir': ['eio', 'intr', 'crash'],
    'listdir': ['eio', 'eacces', 'emfile', 'intr', 'crash'],
    'link': ['eio', 'enospc', 'intr', 'crash', 'power'],
    'answer': ['eof', 'intr', 'crash'],
    'call': ['mem', 'intr'],
    'clone': ['neterr', 'intr', 'crash'],
}
ERRNO_KINDS = set(ERRNO)
FATAL = {'crash', 'crash_after', 'power', 'power_after'}


class Proc(object):
    """one simulated process (session)"""
    count = 0

    def __init__(self, name, pid):
        self.name, self.pid, self.alive = name, pid, True
        self.files = 0
        self.held = []          # threads of the code under test that have not got the processor yet


class OpCtx(object):
    """one operation of the workload: owner of an event counter and of faults"""

    def __init__(self, op_id, proc):
        self.id, self.proc = op_id, proc
        self.n = 0
        self.done = False
        self.events = []        # (ordinal, kind, rel, size)
        self.fired = []         # faults that fired
        self.sticky = []        # [(kinds, rel or None, err)]


class World(object):
    def __init__(self, root, knobs=None, faults=(), seed=0, journal=False):
        knobs = dict(knobs or {})
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.knobs = knobs
        self.bufsize = knobs.get('bufsize', 8192)
        self.read_chunk = knobs.get('read_chunk', 1 << 20)
        self.encoding = knobs.get('encoding', 'utf-8')
        self.list_seed = knobs.get('list_seed', 0)
        self.clock = knobs.get('clock', 1700000000.0)
        self.tick = knobs.get('tick', 0.0005)      # simulated duration of one I/O step
        self.elapsed = 0.0
        self.seed = seed
        self.faults = {}
        for flt in faults:
            self.faults.setdefault((flt['op'], flt['at']), []).append(flt)
        self.log = []
        self.events = 0
        self.trace = []         # events of all ops, for placing faults
        self.fired = {}         # kind -> count
        self.sched = None
        self.rng_bytes = random.Random('bytes:%s' % seed)
        self.names = iter(_names('tmp:%s' % seed))
        self.procs = []
        self.journal = Journal(self) if journal else None
        self.idle = OpCtx('-', Proc('harness', 4242))
        self.pids = 5000
        self.probes = {}
        self.lazy = random.Random('threads:%s' % seed).random() < 0.5

    # -- processes and operations ------------------------------------------
    def spawn(self, name):
        self.pids += 1
        proc = Proc(name, self.pids)
        self.procs.append(proc)
        return proc

    def cur(self):
        return getattr(_tls, 'op', None) or self.idle

    def enter(self, op):
        while op.proc.held:
            _release(op.proc.held[0], True)
        _tls.op = op

    def leave(self):
        op = getattr(_tls, 'op', None)
        if op is not None:
            op.done = True
        _tls.op = None

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # -- paths ----------------------------------------------------------------
    def rel(self, path):
        """path relative to the root, or None when outside"""
        if isinstance(path, int):
            return None
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        path = os.path.abspath(path)
        if path == self.root:
            return '.'
        if path.startswith(self.prefix):
            return path[len(self.prefix):]
        return None

    # -- events ---------------------------------------------------------------
    def event(self, kind, rel, size=0, op=None):
        """called before the action; returns the fault to apply in the middle of it,
        or None.  Raises for faults that replace the action."""
        op = op or self.cur()
        if not op.proc.alive:
            raise SimCrash(op.id)
        if op.done or op is self.idle:
            return None
        if self.sched is not None:
            self.sched.yield_point()
            if not op.proc.alive:
                raise SimCrash(op.id)
        ordinal = op.n
        op.n += 1
        self.events += 1
        self.clock += self.tick
        self.elapsed += abs(self.tick)
        op.events.append((ordinal, kind, rel, size))
        self.trace.append((op.id, ordinal, kind, rel, size))
        self.log.append((op.id, ordinal, kind, rel, size))
        for kinds, srel, err in op.sticky:
            if kind in kinds and (srel is None or srel == rel):
                self._count(err + '*')
                self.log.append((op.id, ordinal, 'FAULT', err + '*'))
                raise OSError(ERRNO[err], os.strerror(ERRNO[err]), os.path.join(self.root, rel))
        for flt in self.faults.get((op.id, ordinal), ()):
            err = flt['err']
            base = err[:-6] if err.endswith('_after') else err
            if not applicable(err, kind):
                continue
            self._count(err + ('@' + kind))
            op.fired.append(flt)
            self.log.append((op.id, ordinal, 'FAULT', err, flt.get('keep')))
            if flt.get('sticky') and base in ERRNO:
                kinds = ('open_r', 'read') if kind in ('open_r', 'read') else \
                        ('open_w', 'write', 'trunc', 'close', 'fsync', 'mkdir', 'rename', 'link')
                if base == 'emfile':        # every further open fails
                    op.sticky.append((('open_r', 'open_w', 'listdir'), None, base))
                else:
                    op.sticky.append((kinds, rel if kind in ('open_r', 'read') or base == 'eacces' else None, base))
            if err.endswith('_after') or (kind in ('write', 'close', 'clone')):
                return flt
            self.strike(flt, op, rel)
        return None

    def strike(self, flt, op, rel):
        """make the fault happen now"""
        err = flt['err']
        base = err[:-6] if err.endswith('_after') else err
        if base in ERRNO:
            raise OSError(ERRNO[base], os.strerror(ERRNO[base]), os.path.join(self.root, rel))
        if base == 'intr':
            raise KeyboardInterrupt()
        if base == 'mem':
            raise MemoryError()
        if base == 'eof':
            raise EOFError()
        if base == 'crash':
            op.proc.alive = False
            raise SimCrash(op.id)
        if base == 'power':
            self.power_loss(flt)
            raise SimCrash(op.id)
        raise HarnessError('unknown fault %r' % (flt,))

    def power_loss(self, flt):
        for proc in self.procs:
            proc.alive = False
        self.journal.power_loss(random.Random('power:%s' % flt.get('keep', 0)))

    def _count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    # -- direct access for the harness ------------------------------------------
    def path(self, rel):
        return os.path.join(self.root, rel)

    def put(self, rel, data):
        """the harness (an outside editor) replaces a file in one step"""
        full = self.path(rel)
        _real['makedirs'](os.path.dirname(full), exist_ok=True)
        tmp = full + '.~harness'
        with _real['open'](tmp, 'wb') as fpt:
            fpt.write(data)
        _real['replace'](tmp, full)
        self.touch(full)
        if self.journal:
            self.journal.external(rel, data)

    def touch(self, full):
        try:
            tick = int(self.clock) * 10**9
            _real['utime'](full, ns=(tick, tick))
            _real['utime'](os.path.dirname(full), ns=(tick, tick))
        except OSError:
            pass

    def get(self, rel):
        try:
            with _real['open'](self.path(rel), 'rb') as fpt:
                return fpt.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def delete(self, rel):
        _real['remove'](self.path(rel))
        if self.journal:
            self.journal.external(rel, None)

    def mkdir(self, rel):
        _real['makedirs'](self.path(rel), exist_ok=True)
        if self.journal:
            self.journal.dirs.add(rel)

    def link(self, rel, target):
        """a symbolic link"""
        if not os.path.lexists(self.path(rel)):
            os.symlink(self.path(target), self.path(rel))

    def tree(self):
        """{rel: bytes or None for a directory} of the whole root"""
        out = {}
        for base, dirs, files in _real['walk'](self.root):
            for name in dirs:
                out[os.path.relpath(os.path.join(base, name), self.root)] = None
            for name in files:
                full = os.path.join(base, name)
                try:
                    with _real['open'](full, 'rb') as fpt:
                        out[os.path.relpath(full, self.root)] = fpt.read()
                except FileNotFoundError:
                    out[os.path.relpath(full, self.root)] = b'link to nowhere'
        return out


# -- threads started by the code under test ----------------------------------------
def _thread_start(self):
    """the new thread belongs to the operation that starts it.  It gets the processor either at
    once or, in other runs, as late as possible: when it is waited for, or after the operation"""
    world, op = WORLD, getattr(_tls, 'op', None)
    if world is None or op is None:
        return _real['thread_start'](self)
    run = self.run

    def body():
        _tls.op = op
        try:
            run()
        except KeyboardInterrupt as exc:        # Ctrl-C reaches the thread that waits
            self._sim_stop = exc
        except SimCrash:
            pass
        finally:
            _tls.op = None
    self.run = body
    if world.lazy and 'Executor' not in self.name:
        op.proc.held.append(self)
        self._sim_proc = op.proc
        watch = threading.Timer(2.0, _release, (self,))     # somebody waits for it in another way
        watch.daemon = True
        _real['thread_start'](watch)
        return None
    _real['thread_start'](self)
    if 'Executor' not in self.name:
        _real['thread_join'](self, 1.0)
    return None


def _release(thread, wait=False):
    held = getattr(thread, '_sim_proc', None)
    if held is None or thread not in held.held:
        return
    held.held.remove(thread)
    _real['thread_start'](thread)
    if wait:
        _real['thread_join'](thread, 5.0)


def _thread_join(self, timeout=None):
    _release(self)
    _real['thread_join'](self, timeout)
    stop = getattr(self, '_sim_stop', None)
    if stop is not None and getattr(_tls, 'op', None) is not None:
        self._sim_stop = None
        raise stop


LIBRARIES = {'numpy', 'scipy', 'pandas', 'yaml'}
CALLS = None        # (world, op): calls into numerical libraries are events of this operation


def _library(fn):
    for item in (fn, type(fn), type(getattr(fn, '__self__', None))):
        name = getattr(item, '__module__', None)
        if isinstance(name, str) and (name.split('.')[0] in LIBRARIES or name.startswith('sim.props')):
            return True
    return False


def _on_call(code, offset, fn, arg0):
    if SUT_PREFIX is None or not code.co_filename.startswith(SUT_PREFIX):
        return sys.monitoring.DISABLE
    if CALLS is None or getattr(_tls, 'op', None) is not CALLS[1] or not _library(fn):
        return None
    CALLS[0].event('call', '%s:%s' % (code.co_name, getattr(fn, '__name__', '?')))
    return None


def watch_calls(world, op):
    """from now on every call the code under test makes into a numerical library is
    an event of op, at which an allocation may fail or Ctrl-C arrive"""
    global CALLS
    mon = sys.monitoring
    if mon.get_tool(4) is None:
        mon.use_tool_id(4, 'simulator')
        mon.register_callback(4, mon.events.CALL, _on_call)
    CALLS = (world, op)
    mon.set_events(4, mon.events.CALL)


def ignore_calls():
    global CALLS
    CALLS = None
    sys.monitoring.set_events(4, 0)


def applicable(err, kind):
    return err in FAULTS_AT.get(kind, ())


class Journal(object):
    """what a power loss may leave: metadata operations become durable in order,
    everything before an fsync is durable, data written and not synced survives
    as an arbitrary, possibly torn, prefix per file"""

    def __init__(self, world):
        self.world = world
        self.base = {}
        self.dirs = set()
        self.inodes = {}
        self.next = 0
        self.names = {}
        self.meta = []
        self.synced = 0

    def snapshot(self):
        """everything on disk now is durable"""
        self.base, self.inodes, self.names, self.meta, self.synced = {}, {}, {}, [], 0
        self.dirs = set()
        for rel, data in self.world.tree().items():
            if data is None:
                self.dirs.add(rel)
            else:
                fid = self._new(data)
                self.base[rel] = fid
        self.names = dict(self.base)

    def _new(self, data=b''):
        self.next += 1
        self.inodes[self.next] = {'start': bytes(data), 'log': [], 'synced': 0}
        return self.next

    def external(self, rel, data):
        if data is None:
            self.base.pop(rel, None)
            self.names.pop(rel, None)
            self.meta.append(('unlink', rel))
        else:
            fid = self._new(data)
            self.names[rel] = fid
            self.meta.append(('create', rel, fid))
        self.synced = len(self.meta)

    def opened(self, rel, existed, trunc):
        if not existed or rel not in self.names:
            fid = self._new()
            self.names[rel] = fid
            self.meta.append(('create', rel, fid))
        fid = self.names[rel]
        if existed and trunc:
            self.inodes[fid]['log'].append(('trunc', 0))
        return fid

    def write(self, fid, off, data):
        self.inodes[fid]['log'].append(('write', off, bytes(data)))

    def trunc(self, fid, size):
        self.inodes[fid]['log'].append(('trunc', size))

    def fsync(self, fid):
        ino = self.inodes[fid]
        ino['synced'] = len(ino['log'])
        self.synced = len(self.meta)

    def rename(self, src, dst):
        if src in self.names:
            self.names[dst] = self.names.pop(src)
        self.meta.append(('rename', src, dst))

    def unlink(self, rel):
        self.names.pop(rel, None)
        self.meta.append(('unlink', rel))

    def mkdir(self, rel):
        self.meta.append(('mkdir', rel))

    def rmdir(self, rel):
        self.meta.append(('rmdir', rel))

    def power_loss(self, rng):
        keep = rng.choice([self.synced, len(self.meta),
                           rng.randint(self.synced, len(self.meta))])
        names, dirs = dict(self.base), set(self.dirs)
        for entry in self.meta[:keep]:
            if entry[0] == 'create':
                names[entry[1]] = entry[2]
            elif entry[0] == 'rename':
                if entry[1] in names:
                    names[entry[2]] = names.pop(entry[1])
                elif entry[1] in dirs:
                    dirs.discard(entry[1])
                    dirs.add(entry[2])
            elif entry[0] == 'unlink':
                names.pop(entry[1], None)
            elif entry[0] == 'mkdir':
                dirs.add(entry[1])
            elif entry[0] == 'rmdir':
                dirs.discard(entry[1])
        world = self.world
        content = {}
        for rel, fid in names.items():
            ino = self.inodes[fid]
            data = bytearray(ino['start'])
            log = ino['log']
            upto = ino['synced'] + rng.choice([0, len(log) - ino['synced'],
                                               rng.randint(0, len(log) - ino['synced'])])
            for i, entry in enumerate(log[:upto]):
                if entry[0] == 'trunc':
                    size = entry[1]
                    data = data[:size] + bytearray(max(0, size - len(data)))
                else:
                    off, chunk = entry[1], entry[2]
                    if i >= ino['synced'] and i == upto - 1 and rng.random() < 0.3:
                        chunk = chunk[:rng.randint(0, len(chunk))]
                    if len(data) < off:
                        data += bytearray(off - len(data))
                    data[off:off + len(chunk)] = chunk
            content[rel] = bytes(data)
        for name in _real['listdir'](world.root):
            full = os.path.join(world.root, name)
            if os.path.isdir(full) and not os.path.islink(full):
                _real['rmtree'](full)
            else:
                _real['remove'](full)
        for rel in sorted(dirs):
            _real['makedirs'](world.path(rel), exist_ok=True)
        for rel in sorted(content):
            _real['makedirs'](os.path.dirname(world.path(rel)), exist_ok=True)
            with _real['open'](world.path(rel), 'wb') as fpt:
                fpt.write(content[rel])
        self.snapshot()


FILE_LIMIT = 8         # files one simulated process can hold open at a time


class SimRaw(io.FileIO):
    """raw file inside the world"""

    def __init__(self, world, rel, path, mode, opener=None):
        self._w = world
        self._rel = rel
        self._op = world.cur()
        self._wrote = False
        self._counted_close = False
        self._fid = None
        writing = any(c in mode for c in 'wax+')
        world.event('open_w' if writing else 'open_r', rel, op=self._op)
        self._held = False
        self._writing = writing
        if self._op.proc.files >= FILE_LIMIT:
            world.log.append((self._op.id, self._op.n, 'LIMIT', 'too many open files'))
            raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), os.path.join(world.root, rel))
        existed = os.path.exists(path) if not isinstance(path, int) else True
        if isinstance(path, int):
            io.FileIO.__init__(self, path, mode)
        elif opener is not None:
            io.FileIO.__init__(self, path, mode, opener=opener)
        else:
            io.FileIO.__init__(self, path, mode)
        self._op.proc.files += 1
        self._held = True
        if writing:
            if world.journal is not None:
                self._fid = world.journal.opened(rel, existed, 'w' in mode)
            if 'w' in mode or not existed:
                self._wrote = True
                world.touch(world.path(rel))

    def readinto(self, buf):
        view = memoryview(buf).cast('B')
        self._w.event('read', self._rel, op=self._op)
        size = min(len(view), max(1, self._w.read_chunk))
        return io.FileIO.readinto(self, view[:size])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        self._w.event('read', self._rel, op=self._op)
        return io.FileIO.read(self, min(size, max(1, self._w.read_chunk)) if size else 0)

    def readall(self):
        out = []
        while True:
            self._w.event('read', self._rel, op=self._op)
            chunk = io.FileIO.read(self, max(1, self._w.read_chunk))
            if not chunk:
                return b''.join(out)
            out.append(chunk)

    def _put(self, data):
        if not data:
            return 0
        off = self.tell() if not self._append() else None
        done = 0
        while done < len(data):
            done += io.FileIO.write(self, data[done:])
        if self._w.journal is not None and self._fid is not None:
            if off is None:
                off = self.tell() - len(data)
            self._w.journal.write(self._fid, off, data)
        self._wrote = True
        return len(data)

    def _append(self):
        return 'a' in self.mode

    def write(self, data):
        data = bytes(memoryview(data).cast('B'))
        if not self._op.proc.alive:
            return len(data)            # the process is gone, so is its buffer
        flt = self._w.event('write', self._rel, len(data), op=self._op)
        if flt is not None:
            keep = int(len(data) * (flt.get('keep', 0) % 101) / 100)
            self._put(data[:keep])
            self._w.strike(flt, self._op, self._rel)
        self._put(data)
        return len(data)

    def truncate(self, size=None):
        if not self._op.proc.alive:
            return 0
        self._w.event('trunc', self._rel, op=self._op)
        size = self.tell() if size is None else size
        out = io.FileIO.truncate(self, size)
        if self._w.journal is not None and self._fid is not None:
            self._w.journal.trunc(self._fid, size)
        self._wrote = True
        return out

    def close(self):
        if self.closed:
            return
        if getattr(self, '_held', False):
            self._held = False
            self._op.proc.files -= 1
        flt = None
        if self._writing and not self._counted_close:
            self._counted_close = True
            try:
                if self._op.proc.alive:
                    flt = self._w.event('close', self._rel, op=self._op)
            except BaseException:
                io.FileIO.close(self)
                raise
        if self._wrote:
            try:
                tick = int(self._w.clock) * 10**9
                _real['utime'](self.fileno(), ns=(tick, tick))
            except (OSError, ValueError):
                pass
        io.FileIO.close(self)
        if flt is not None:
            self._w.strike(flt, self._op, self._rel)


_FDS = {}       # fd opened through os.open inside a world -> (world, rel, op, fid)


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    world = WORLD
    rel = None
    if world is not None:
        if isinstance(file, int) and not isinstance(file, bool):
            known = _FDS.get(file)
            if known is not None and known[0] is world:
                rel = known[1]
        else:
            rel = world.rel(file)
    if rel is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError('invalid mode: %r' % mode)
    binary = 'b' in mode
    if 'U' in mode or (binary and 't' in mode):
        raise ValueError('invalid mode: %r' % mode)
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    rawmode = mode.replace('b', '').replace('t', '')
    raw = SimRaw(world, rel, file, rawmode, opener=opener)
    if isinstance(file, int):
        _FDS.pop(file, None)
    line = False
    if buffering == 1 and not binary:
        buffering, line = -1, True
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = world.bufsize if buffering < 0 or buffering == 1 else buffering
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif rawmode[0] == 'r':
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    if encoding is None or encoding == 'locale':
        encoding = world.encoding
    text = io.TextIOWrapper(buf, encoding, errors, newline, line)
    if size < 8192:
        text._CHUNK_SIZE = max(8, size)
    text.mode = mode
    return text


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    world = WORLD
    rel = world.rel(path) if world is not None and dir_fd is None else None
    if rel is None or os.path.isdir(path):
        return _real['os_open'](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR)
    existed = os.path.exists(path)
    world.event('open_w' if writing else 'open_r', rel)
    fd = _real['os_open'](path, flags, mode)
    fid = None
    if writing and world.journal is not None:
        fid = world.journal.opened(rel, existed, bool(flags & os.O_TRUNC))
    _FDS[fd] = (world, rel, world.cur(), fid)
    return fd


def _os_write(fd, data):
    known = _FDS.get(fd)
    world = WORLD
    if known is None or world is None or known[0] is not world:
        return _real['os_write'](fd, data)
    _w, rel, op, fid = known
    if not op.proc.alive:
        return len(data)
    data = bytes(data)
    off = _real['lseek'](fd, 0, os.SEEK_CUR)
    flt = world.event('write', rel, len(data), op=op)
    if flt is not None:
        part = data[:int(len(data) * (flt.get('keep', 0) % 101) / 100)]
        if part:
            _real['os_write'](fd, part)
            if world.journal is not None and fid is not None:
                world.journal.write(fid, off, part)
        world.strike(flt, op, rel)
    n = _real['os_write'](fd, data)
    if world.journal is not None and fid is not None:
        world.journal.write(fid, off, data[:n])
    return n


def _os_read(fd, n):
    known = _FDS.get(fd)
    world = WORLD
    if known is None or world is None or known[0] is not world:
        return _real['os_read'](fd, n)
    world.event('read', known[1], op=known[2])
    return _real['os_read'](fd, min(n, max(1, world.read_chunk)))


def _os_close(fd):
    _FDS.pop(fd, None)
    return _real['os_close'](fd)


def _fid_of(world, fd):
    known = _FDS.get(fd)
    if known is not None and known[0] is world:
        return known[1], known[3]
    try:
        rel = world.rel(os.readlink('/proc/self/fd/%d' % fd))
    except OSError:
        return None, None
    if rel is None:
        return None, None
    fid = world.journal.names.get(rel) if world.journal is not None else None
    return rel, fid


def _os_fsync(fd):
    world = WORLD
    if world is None:
        return _real['fsync'](fd)
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    rel, fid = _fid_of(world, fd)
    if rel is None:
        return _real['fsync'](fd)
    world.event('fsync', rel)
    if world.journal is not None:
        if fid is not None:
            world.journal.fsync(fid)
        else:                           # a directory
            world.journal.synced = len(world.journal.meta)
    return None                         # the scratch file system needs no real sync


def _rename_like(name):
    def call(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        world = WORLD
        if world is None or src_dir_fd is not None or dst_dir_fd is not None:
            return _real[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        rsrc, rdst = world.rel(src), world.rel(dst)
        if rsrc is None and rdst is None:
            return _real[name](src, dst)
        if rsrc is None or rdst is None:
            # the temporary directory is another file system than the database
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)
        flt = world.event('rename', rdst)
        _real[name](src, dst)
        world.touch(world.path(rdst))
        if world.journal is not None:
            world.journal.rename(rsrc, rdst)
        if flt is not None:
            world.strike(flt, world.cur(), rdst)
    call.__name__ = name
    return call


def _unlink_like(name):
    def call(path, *, dir_fd=None):
        world = WORLD
        rel = world.rel(path) if world is not None and dir_fd is None else None
        if rel is None:
            return _real[name](path, dir_fd=dir_fd)
        flt = world.event('unlink', rel)
        _real[name](path)
        world.touch(world.path(rel))
        if world.journal is not None:
            world.journal.unlink(rel)
        if flt is not None:
            world.strike(flt, world.cur(), rel)
    call.__name__ = name
    return call


def _os_mkdir(path, mode=0o777, *, dir_fd=None):
    world = WORLD
    rel = world.rel(path) if world is not None and dir_fd is None else None
    if rel is None:
        return _real['mkdir'](path, mode, dir_fd=dir_fd)
    flt = world.event('mkdir', rel)
    _real['mkdir'](path, mode)
    if world.journal is not None:
        world.journal.mkdir(rel)
    if flt is not None:
        world.strike(flt, world.cur(), rel)


def _os_rmdir(path, *, dir_fd=None):
    world = WORLD
    rel = world.rel(path) if world is not None and dir_fd is None else None
    if rel is None:
        return _real['rmdir'](path, dir_fd=dir_fd)
    world.event('rmdir', rel)
    _real['rmdir'](path)
    if world.journal is not None:
        world.journal.rmdir(rel)


def _order(world, rel, names):
    names = sorted(names)
    random.Random('%s:%s' % (world.list_seed, rel)).shuffle(names)
    return names


def _os_listdir(path='.'):
    world = WORLD
    rel = world.rel(path) if world is not None else None
    if rel is None:
        return _real['listdir'](path)
    world.event('listdir', rel)
    return _order(world, rel, _real['listdir'](path))


class _Scan(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        self._it = iter(())


def _os_scandir(path='.'):
    world = WORLD
    rel = world.rel(path) if world is not None else None
    if rel is None:
        return _real['scandir'](path)
    world.event('listdir', rel)
    with _real['scandir'](path) as scan:
        entries = {entry.name: entry for entry in scan}
    return _Scan([entries[name] for name in _order(world, rel, entries)])


def _os_link(src, dst, **kwargs):
    world = WORLD
    rel = world.rel(dst) if world is not None else None
    if rel is None:
        return _real['link'](src, dst, **kwargs)
    world.event('link', rel)
    _real['link'](src, dst, **kwargs)
    if world.journal is not None:
        rsrc = world.rel(src)
        fid = world.journal.names.get(rsrc)
        if fid is not None:
            world.journal.names[rel] = fid
            world.journal.meta.append(('create', rel, fid))


def _os_truncate(path, length):
    world = WORLD
    if world is not None:
        if isinstance(path, int):
            rel, fid = _fid_of(world, path)
        else:
            rel = world.rel(path)
            fid = world.journal.names.get(rel) if world.journal is not None else None
        if rel is not None:
            world.event('trunc', rel)
            _real['truncate'](path, length)
            if world.journal is not None and fid is not None:
                world.journal.trunc(fid, length)
            return None
    return _real['truncate'](path, length)


def _urandom(n):
    world = WORLD
    if world is None or world.cur() is world.idle:
        return _real['urandom'](n)
    return world.rng_bytes.randbytes(n)


def _time():
    world = WORLD
    return _real['time']() if world is None else world.clock


def _time_ns():
    world = WORLD
    return _real['time_ns']() if world is None else int(world.clock * 10**9)


def _monotonic():
    world = WORLD
    return _real['monotonic']() if world is None else 1000.0 + world.elapsed


def _monotonic_ns():
    return int(_monotonic() * 10**9)


def _perf_counter():
    world = WORLD
    return _real['perf_counter']() if world is None else 1000.0 + world.elapsed


def _at_now(name):
    def call(secs=None):
        return _real[name](_time() if secs is None else secs)
    call.__name__ = name
    return call


def _strftime(form, when=None):
    return _real['strftime'](form, time.localtime() if when is None else when)


def _getpid():
    world = WORLD
    if world is None or world.cur() is world.idle:
        return _real['getpid']()
    return world.cur().proc.pid


def _sleep(secs):
    world = WORLD
    if world is None:
        return _real['sleep'](secs)
    world.clock += secs
    world.elapsed += secs
    if world.sched is not None:
        world.sched.yield_point()
    return None


def _names(seed):
    rng = random.Random(seed)
    while True:
        yield ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8))


class _TempNames(object):
    def __init__(self):
        self.fallback = tempfile._RandomNameSequence()

    def __iter__(self):
        return self

    def __next__(self):
        world = WORLD
        if world is None:
            return next(self.fallback)
        return next(world.names)


class SimLock(object):
    """stands in for locks created by the code under test: a task that has to
    wait hands the processor back to the simulated scheduler"""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            world = WORLD
            sched = world.sched if world is not None else None
            if sched is None or not sched.block_turn():
                raise HarnessError('deadlock on a lock of the code under test')
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


SUT_PREFIX = None


def _lock_factory(name, reentrant):
    def make(*args, **kwargs):
        frame = sys._getframe(1)
        if SUT_PREFIX and frame.f_code.co_filename.startswith(SUT_PREFIX):
            return SimLock(reentrant)
        return _real[name](*args, **kwargs)
    return make


def install(sut_prefix, tmpdir):
    global SUT_PREFIX
    if _real:
        return
    SUT_PREFIX = sut_prefix
    _real.update(open=io.open, os_open=os.open, os_write=os.write, os_read=os.read,
                 os_close=os.close, fsync=os.fsync, replace=os.replace, rename=os.rename,
                 remove=os.remove, unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir,
                 listdir=os.listdir, scandir=os.scandir, link=os.link, truncate=os.truncate,
                 urandom=os.urandom, time=time.time, time_ns=time.time_ns, getpid=os.getpid,
                 sleep=time.sleep, monotonic=time.monotonic, perf_counter=time.perf_counter,
                 localtime=time.localtime, gmtime=time.gmtime, ctime=time.ctime, strftime=time.strftime, utime=os.utime, lseek=os.lseek,
                 Lock=threading.Lock, RLock=threading.RLock, thread_start=threading.Thread.start,
                 thread_join=threading.Thread.join)
    # helpers for the harness that never meet the seam
    def walk(top):
        dirs, files = [], []
        with _real['scandir'](top) as scan:
            for entry in sorted(scan, key=lambda e: e.name):
                (dirs if entry.is_dir(follow_symlinks=False) else files).append(entry.name)
        yield top, dirs, files
        for name in dirs:
            for item in walk(os.path.join(top, name)):
                yield item

    def rmtree(top):
        for base, dirs, files in list(walk(top))[::-1]:
            for name in files:
                _real['unlink'](os.path.join(base, name))
            _real['rmdir'](base)

    def makedirs(path, exist_ok=True):
        if os.path.isdir(path):
            return
        parent = os.path.dirname(path)
        if parent and not os.path.isdir(parent):
            makedirs(parent)
        _real['mkdir'](path)
    _real.update(walk=walk, rmtree=rmtree, makedirs=makedirs)

    builtins.open = _sim_open
    io.open = _sim_open
    os.open, os.write, os.read, os.close = _os_open, _os_write, _os_read, _os_close
    os.fsync = _os_fsync
    if hasattr(os, 'fdatasync'):
        os.fdatasync = _os_fsync
    os.replace, os.rename = _rename_like('replace'), _rename_like('rename')
    os.remove, os.unlink = _unlink_like('remove'), _unlink_like('unlink')
    os.mkdir, os.rmdir = _os_mkdir, _os_rmdir
    os.listdir, os.scandir, os.link = _os_listdir, _os_scandir, _os_link
    os.truncate = os.ftruncate = _os_truncate
    os.urandom = _urandom
    os.getpid = _getpid
    time.time, time.time_ns, time.sleep = _time, _time_ns, _sleep
    time.monotonic, time.monotonic_ns, time.perf_counter = _monotonic, _monotonic_ns, _perf_counter
    time.localtime, time.gmtime, time.ctime = _at_now('localtime'), _at_now('gmtime'), _at_now('ctime')
    time.strftime = _strftime
    threading.Thread.start, threading.Thread.join = _thread_start, _thread_join
    threading.excepthook = lambda args: None
    threading.Lock = _lock_factory('Lock', False)
    threading.RLock = _lock_factory('RLock', True)
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    for mod_name in ('random', 'uuid'):
        mod = __import__(mod_name)
        if hasattr(mod, '_urandom'):
            mod._urandom = _urandom
    tempfile.tempdir = tempfile.tempdir or None
    tempfile._name_sequence = _TempNames()
    tempfile.tempdir = tmpdir
    for name in ('supports_dir_fd', 'supports_fd', 'supports_follow_symlinks'):
        pairs = getattr(os, name)
        for key in ('open', 'replace', 'rename', 'remove', 'unlink', 'mkdir', 'rmdir',
                    'listdir', 'scandir', 'link', 'truncate'):
            real = _real['os_open'] if key == 'open' else _real[key]
            if real in pairs:
                pairs.add(getattr(os, key))


def real(name):
    return _real[name]


def activate(world):
    global WORLD
    WORLD = world
    _FDS.clear()
