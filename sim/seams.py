"""The I/O seams: every read goats makes goes through here.

The wrappers run the real libraries; with no fault plan armed they only count.
Installed once per process, before goats is imported.
"""

import builtins
import errno
import io
import os
import pathlib

import netCDF4

REAL = {
    'Dataset': netCDF4.Dataset,
    'open': io.open,
}
for _name in ('open', 'write', 'replace', 'rename', 'fsync', 'unlink',
              'remove', 'truncate', 'ftruncate', 'link', 'symlink'):
    REAL['os_' + _name] = getattr(os, _name)


class Seam:
    """Fault plan and call log."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.plan = []            # [{'call':, 'n':, 'exc':, 'count':}]
        self.counts = {}
        self.fired = []
        self.protect = ()         # roots that must not be written
        self.writes = []          # write-mode opens below a protected root
        self.forbid = ()          # roots where writing is refused at once
        self.enabled = False
        self.yield_hook = None    # cooperative scheduler hook
        self.disk = None          # fault plan for mutating calls
        self.mutations = 0
        self.dirty = {}           # written but not synchronised files
        self.trail = []           # names of the mutating calls

    def arm(self, plan):
        self.plan = [dict(p) for p in plan]
        self.counts = {}
        self.enabled = True

    def disarm(self):
        self.plan = []
        self.enabled = False

    def call(self, name, target=None):
        """Account for one I/O call; raise if the plan says so."""
        if self.yield_hook is not None:
            self.yield_hook(name)
        if not self.enabled:
            return None
        n = self.counts[name] = self.counts.get(name, 0) + 1
        for fault in self.plan:
            if fault['call'] != name:
                continue
            if fault['n'] <= n < fault['n'] + fault.get('count', 1):
                self.fired.append((name, n, fault['exc']))
                if fault['exc'].startswith('data:'):
                    return fault['exc'][5:]
                raise make_error(fault['exc'], target)
        return None


SEAM = Seam()

ERRORS = {
    'EIO': lambda t: OSError(errno.EIO, os.strerror(errno.EIO), t),
    'EMFILE': lambda t: OSError(errno.EMFILE, os.strerror(errno.EMFILE), t),
    'ENOENT': lambda t: FileNotFoundError(
        errno.ENOENT, os.strerror(errno.ENOENT), t),
    'EACCES': lambda t: PermissionError(
        errno.EACCES, os.strerror(errno.EACCES), t),
    'ENOSPC': lambda t: OSError(
        errno.ENOSPC, os.strerror(errno.ENOSPC), t),
    'EDQUOT': lambda t: OSError(
        errno.EDQUOT, os.strerror(errno.EDQUOT), t),
    'EROFS': lambda t: OSError(errno.EROFS, os.strerror(errno.EROFS), t),
    'EINTR': lambda t: InterruptedError(
        errno.EINTR, os.strerror(errno.EINTR), t),
    'HDF': lambda t: RuntimeError('NetCDF: HDF error'),
    'MemoryError': lambda t: MemoryError('simulated allocation failure'),
    'KeyboardInterrupt': lambda t: KeyboardInterrupt('simulated interrupt'),
}


def make_error(name, target=None):
    return ERRORS[name](None if target is None else str(target))


class SimVariable:
    """A netCDF variable behind the read seam."""

    __slots__ = ('_real',)

    def __init__(self, real):
        object.__setattr__(self, '_real', real)

    @property
    def __class__(self):
        return type(self._real)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __setattr__(self, name, value):
        SEAM.writes.append(('setattr', name))
        setattr(self._real, name, value)

    def __len__(self):
        return len(self._real)

    def __getitem__(self, index):
        SEAM.call('ncread', self._real.name)
        return self._real[index]

    def __setitem__(self, index, value):
        SEAM.writes.append(('setitem', self._real.name))
        self._real[index] = value

    def __array__(self, *args, **kwargs):
        SEAM.call('ncread', self._real.name)
        return self._real.__array__(*args, **kwargs)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __repr__(self):
        return repr(self._real)


class SimDataset(REAL['Dataset']):
    """A netCDF dataset behind the open seam."""

    def __init__(self, filename, mode='r', *args, **kwargs):
        SEAM.call('ncopen', filename)
        if mode not in ('r', 'rs'):
            note_write(filename, f'netCDF4 mode {mode!r}')
        super().__init__(filename, mode, *args, **kwargs)
        self.__dict__['_sim_vars'] = None

    @property
    def variables(self):
        real = REAL['Dataset'].variables.__get__(self)
        cached = self.__dict__.get('_sim_vars')
        if cached is None or len(cached) != len(real):
            cached = {k: SimVariable(v) for k, v in real.items()}
            self.__dict__['_sim_vars'] = cached
        return cached


def below(path, roots):
    if isinstance(path, int):
        return None
    full = os.path.abspath(os.fsdecode(os.fspath(path)))
    for root in roots:
        if full == root or full.startswith(root + os.sep):
            return root
    return None


def note_write(path, how):
    root = below(path, SEAM.protect)
    if root:
        SEAM.writes.append((how, os.path.relpath(os.fsdecode(
            os.fspath(path)), root)))
    if below(path, SEAM.forbid):
        raise PermissionError(
            errno.EACCES, 'the simulator refuses to write here', str(path))


class Crash(BaseException):
    """Never raised: the simulated process simply ends."""


def power_loss(fraction):
    """What was not synchronised may be lost."""
    for path in SEAM.dirty:
        try:
            size = os.stat(path).st_size
            REAL['os_truncate'](path, int(size*fraction))
        except OSError:
            pass


def die(kind, fraction):
    if kind == 'power':
        power_loss(fraction)
    os._exit(77)


def mutate(name, path, action, data=None):
    """One call that changes the file system."""
    if SEAM.yield_hook is not None:
        SEAM.yield_hook(name)
    plan = SEAM.disk
    if plan is None:
        return action(data) if data is not None else action()
    SEAM.mutations += 1
    SEAM.trail.append(name)
    hit = SEAM.mutations == plan['n'] or (
        plan.get('sticky') and SEAM.mutations > plan['n'])
    if not hit:
        return action(data) if data is not None else action()
    kind, fraction = plan['kind'], plan.get('fraction', 0.5)
    SEAM.fired.append((name, SEAM.mutations, kind))
    part = None
    if data is not None:
        part = bytes(data)[:int(len(data)*fraction)]
    if kind == 'short':
        # a legal partial write
        if part:
            return action(part)
        return action(data) if data is not None else action()
    if part:
        action(part)
    if kind in ('kill', 'power'):
        if data is None and fraction > 0.5:
            action()
        die(kind, fraction)
    raise make_error(kind, path)


class SimRaw(io.FileIO):
    """A file that is open for writing, behind the disk seam."""

    def __init__(self, file, mode, closefd=True, opener=None):
        super().__init__(file, mode, closefd, opener)
        self._path = file if isinstance(file, int) else os.path.abspath(
            os.fsdecode(os.fspath(file)))

    def write(self, data):
        data = bytes(data)
        SEAM.dirty[self._path] = True
        return mutate('write', self._path, super().write, data)

    def truncate(self, size=None):
        SEAM.dirty[self._path] = True
        return mutate('truncate', self._path,
                      lambda: io.FileIO.truncate(self, size))


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if not any(c in mode for c in 'wax+'):
        SEAM.call('open', file)
        return REAL['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    note_write(file, f'open mode {mode!r}')
    SEAM.call('wopen', file)
    plain = mode.replace('b', '').replace('t', '').replace('U', '')
    raw = mutate('wopen', file,
                 lambda: SimRaw(file, plain, closefd, opener))
    if 'b' in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    layer = (io.BufferedRandom if '+' in mode else io.BufferedWriter)(
        raw, size)
    if 'b' in mode:
        return layer
    text = io.TextIOWrapper(layer, encoding, errors, newline,
                            line_buffering=buffering == 1)
    text.mode = mode
    return text


def _path_of(fd):
    try:
        return os.readlink(f'/proc/self/fd/{fd}')
    except OSError:
        return fd


def sim_fsync(fd):
    number = fd if isinstance(fd, int) else fd.fileno()

    def action():
        REAL['os_fsync'](number)
        SEAM.dirty.pop(_path_of(number), None)

    return mutate('fsync', number, action)


def _moving(name):
    def moved(src, dst, **kwargs):
        note_write(src, name)
        note_write(dst, name)

        def action():
            REAL['os_' + name](src, dst, **kwargs)
            a, b = (os.path.abspath(os.fsdecode(os.fspath(x)))
                    for x in (src, dst))
            SEAM.dirty.pop(b, None)
            if a in SEAM.dirty:
                SEAM.dirty[b] = SEAM.dirty.pop(a)

        return mutate(name, dst, action)
    return moved


def _touching(name):
    def touched(path, *args, **kwargs):
        note_write(path, name)
        return mutate(name, path,
                      lambda: REAL['os_' + name](path, *args, **kwargs))
    return touched


def sim_os_open(path, flags, mode=0o777, **kwargs):
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        note_write(path, 'os.open')
    return REAL['os_open'](path, flags, mode, **kwargs)


def sim_os_write(fd, data):
    if SEAM.disk is None:
        return REAL['os_write'](fd, data)
    SEAM.dirty[_path_of(fd)] = True
    return mutate('write', fd, lambda d: REAL['os_write'](fd, d), bytes(data))


def install():
    """Route goats' I/O through the seams."""
    netCDF4.Dataset = SimDataset
    io.open = sim_open
    builtins.open = sim_open
    os.fsync = sim_fsync
    for name in ('replace', 'rename'):
        setattr(os, name, _moving(name))
    for name in ('unlink', 'remove', 'truncate'):
        setattr(os, name, _touching(name))
    os.open = sim_os_open
    os.write = sim_os_write
    # pathlib keeps its own references
    accessor = getattr(pathlib, '_NormalAccessor', None)
    if accessor is not None:
        for name in ('replace', 'rename', 'unlink', 'open'):
            if hasattr(accessor, name):
                setattr(accessor, name, staticmethod(getattr(os, name)))
