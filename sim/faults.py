"""The fault plane: seams at the library boundary, none inside nilmtk.

HDF5 access is intercepted at PyTables (the only way pandas reaches the file), text files
at builtins.open / os.*, so that nilmtk may be rewritten freely without moving a seam.
With nothing armed the plane only counts.
"""
import builtins
import errno
import io
import os

import core

HDF_FAULT = core.SimHDFFault


def _err(kind, site):
    if kind == 'eio':
        return core.SimFault(errno.EIO, 'simulated I/O error at ' + site)
    if kind == 'enospc':
        return core.SimFault(errno.ENOSPC, 'simulated: no space left on device at ' + site)
    if kind == 'hdf':
        return HDF_FAULT('simulated HDF5 failure at ' + site)
    if kind == 'mem':
        return MemoryError('simulated allocation failure at ' + site)
    if kind == 'intr':
        return core.SimInterrupt('simulated interrupt at ' + site)
    if kind == 'crash':
        return core.SimCrash('simulated crash at ' + site)
    raise ValueError(kind)


class Plane:
    def __init__(self):
        self.installed = False
        self.reset()

    def reset(self):
        self.ctx = None
        self.on = False
        self.count = {}
        self.armed = []          # [{'site','nth','kind'}]
        self.seam_open = False   # opening an HDF5 file counts as a seam (only where a property asks for it)
        self.hook = None         # called at each seam: hook(site, n)
        self.fired = []
        self.dead = False        # the simulated process has crashed: nothing reaches the disk any more

    def start(self, ctx):
        self.reset()
        self.ctx = ctx
        self.on = True

    def arm(self, faults):
        """Counting starts again from here."""
        self.count = {}
        self.armed = [dict(f) for f in faults]
        self.fired = []

    def restart(self):
        self.dead = False
        self.armed = []

    def disarm(self):
        self.armed = []

    def hit(self, site):
        """Called at a seam.  Raises the fault that is due, if any."""
        if not self.on:
            return
        n = self.count[site] = self.count.get(site, 0) + 1
        tot = self.count['*'] = self.count.get('*', 0) + 1
        if self.hook is not None:
            self.hook(site, tot)
        for f in self.armed:
            if f.get('spent'):
                continue
            if (f['site'] == site and f['nth'] == n) or (f['site'] == '*' and f['nth'] == tot):
                if not f.get('sticky'):
                    f['spent'] = True
                else:
                    f['nth'] += 1
                self.fired.append((site, f['kind']))
                self.ctx.fault('%s@%s' % (f['kind'], site))
                self.ctx.log('fault', site, f['kind'], n)
                if f['kind'] == 'crash':
                    self.dead = True
                raise _err(f['kind'], site)


PLANE = Plane()


def _wrap(owner, name, site):
    orig = getattr(owner, name)

    def wrapper(self, *a, **k):
        PLANE.hit(site)
        return orig(self, *a, **k)
    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    setattr(owner, name, wrapper)


def install_hdf():
    import tables
    from tables.table import Table
    from tables.file import File
    from tables.attributeset import AttributeSet
    if getattr(Table, '_sim', False):
        return
    Table._sim = True
    for m in ('read', 'read_coordinates', 'read_where', 'get_where_list', 'itersequence'):
        _wrap(Table, m, 'hdf.read')
    for m in ('append', 'remove_rows', 'modify_rows'):
        _wrap(Table, m, 'hdf.write')
    _wrap(File, 'create_table', 'hdf.create')
    _wrap(File, 'create_group', 'hdf.create')
    _wrap(File, 'remove_node', 'hdf.remove')
    _wrap(File, 'flush', 'hdf.flush')
    real_open = tables.open_file

    def open_file(*a, **k):
        if PLANE.seam_open:
            PLANE.hit('hdf.open')
        return real_open(*a, **k)
    tables.open_file = tables.file.open_file = open_file


class SimFile(io.FileIO):
    """A file below the scratch directory; each read and write is a seam."""

    def readinto(self, b):
        PLANE.hit('fs.read')
        return super().readinto(b)

    def readall(self):
        PLANE.hit('fs.read')
        return super().readall()

    def read(self, n=-1):
        PLANE.hit('fs.read')
        return super().read(n)

    def write(self, b):
        m = memoryview(b).cast('B')
        if PLANE.dead:
            return len(m)
        try:
            PLANE.hit('fs.write')
        except (core.SimFault, core.SimCrash):
            # torn write: a part of the block reaches the disk before the error
            cut = PLANE.ctx.scn.get('cut', 50) * len(m) // 100
            if cut:
                super().write(m[:cut])
            raise
        return super().write(b)


_real_open = builtins.open
_real = {}


def _sim_path(p):
    ctx = PLANE.ctx
    if not PLANE.on or ctx is None or isinstance(p, int):
        return False
    try:
        p = os.path.abspath(os.fspath(p))
    except TypeError:
        return False
    if isinstance(p, bytes):
        return False
    return p.startswith(ctx.dir + os.sep) and not p.startswith(os.path.join(ctx.dir, 'tmp') + os.sep + 'nilmtk-')


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _sim_path(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    PLANE.hit('fs.open')
    raw = SimFile(file, mode.replace('b', '').replace('t', ''), closefd, opener)
    size = PLANE.ctx.scn.get('iobuf', 512)       # small, so that faults land inside a file
    upd = '+' in mode
    if upd:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
    t.mode = mode
    return t


def install_fs():
    if _real:
        return
    builtins.open = sim_open
    io.open = sim_open
    for name in ('remove', 'unlink', 'rename', 'replace', 'makedirs', 'mkdir', 'listdir', 'scandir'):
        _real[name] = getattr(os, name)

    def w1(name, site):
        real = _real[name]

        def f(path='.', *a, **k):
            if _sim_path(path):
                PLANE.hit(site)
            return real(path, *a, **k)
        f.__name__ = name
        setattr(os, name, f)
    for name in ('remove', 'unlink', 'rename', 'replace'):
        w1(name, 'fs.' + name)

    def listdir(path='.'):
        out = _real['listdir'](path)
        if _sim_path(os.path.join(os.fspath(path), 'x')) and isinstance(path, (str, os.PathLike)):
            PLANE.hit('fs.listdir')
            out = order(out)
        return out
    os.listdir = listdir

    def scandir(path='.'):
        if not (isinstance(path, (str, os.PathLike)) and _sim_path(os.path.join(os.fspath(path), 'x'))):
            return _real['scandir'](path)
        # no faults here: glob and pathlib take a directory they cannot list for an empty one
        with _real['scandir'](path) as it:
            ents = {e.name: e for e in it}
        return _Scan([ents[n] for n in order(ents)])
    os.scandir = scandir


class _Scan:
    def __init__(self, ents):
        self.it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())


class SimPool:
    """multiprocessing.Pool with the scheduler in our hands: the workers are jobs that are taken
    in a seeded order; what crosses the process boundary is pickled, as it would be."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        self.closed = False
        if initializer:
            initializer(*initargs)

    def _run(self, fn, argss):
        import pickle
        import random
        argss = list(argss)
        todo = list(range(len(argss)))
        random.Random(core.derive(PLANE.ctx.scn.get('poolseed', 0), len(argss))).shuffle(todo)
        if todo != sorted(todo):
            PLANE.ctx.probe('workers out of order')
        done = []
        err = None
        for i in todo:
            f, a = pickle.loads(pickle.dumps((fn, argss[i])))
            try:
                done.append((i, pickle.loads(pickle.dumps(f(*a)))))
            except Exception as e:         # the first failure is reported when the others have been told to stop
                err = err or e
        if err is not None:
            raise err
        return done

    def starmap(self, fn, it, chunksize=None):
        return [r for _, r in sorted(self._run(fn, it), key=lambda x: x[0])]

    def map(self, fn, it, chunksize=None):
        return self.starmap(fn, [(x,) for x in it])

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def imap_unordered(self, fn, it, chunksize=1):
        return iter([r for _, r in self._run(fn, [(x,) for x in it])])

    def apply(self, fn, args=(), kwds={}):
        import functools
        return self.starmap(functools.partial(fn, **kwds), [args])[0]

    def _async(self, call):
        class R:
            def get(self, timeout=None):
                return call()

            def wait(self, timeout=None):
                pass

            def ready(self):
                return True
        return R()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(lambda: self.apply(fn, args, kwds))

    def map_async(self, fn, it, chunksize=None):
        return self._async(lambda: self.map(fn, it))

    def close(self):
        self.closed = True

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install_pool():
    import multiprocessing
    import multiprocessing.pool
    if 'Pool' in _real:
        return
    _real['Pool'] = multiprocessing.Pool

    def Pool(*a, **k):
        return SimPool(*a, **k) if PLANE.on else _real['Pool'](*a, **k)
    multiprocessing.Pool = Pool


def order(names):
    """Directory listings come in an arbitrary order: the scenario decides it."""
    ctx = PLANE.ctx
    names = sorted(names)
    seed = ctx.scn.get('dirseed') if ctx else None
    if seed:
        import random
        random.Random(core.derive(seed, tuple(names))).shuffle(names)
    return names
