"""Simulation core: seeded runs, fault plane, event log, shrinking, replay, evidence.

One integer (VERIF_SEED) decides everything.  Run number i of property P draws its
scenario -- operations, schedule, faults, data -- from Random(sha256(seed, P, i)); the
scenario is a JSON document, and executing it is a pure function of the document and of
the code in /repo.  Every run happens in a forked child of a warmed-up process, so that
no state of the library (its global statistics cache, its global list of meters, open
HDF5 files) leaks from one run into the next.
"""
import copy
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')     # another tree only while planting bugs
RUN_TIMEOUT = 180          # wall seconds for one run; runs take well under 2 s


class Violation(Exception):
    """The property is broken.  `cls` names the kind of failure, for minimising."""

    def __init__(self, cls, detail=''):
        super().__init__('%s: %s' % (cls, detail))
        self.cls = cls
        self.detail = str(detail)


class SimFault(OSError):
    """An injected I/O error."""


class SimHDFFault(RuntimeError):
    """Replaced at import by a subclass of tables.HDF5ExtError."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimInterrupt(KeyboardInterrupt):
    """The user interrupts the operation here."""


INJECTED = (SimFault, SimHDFFault, SimCrash, SimInterrupt, MemoryError)


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Rng(random.Random):
    """Helpers on top of random.Random (whose algorithms are stable across processes)."""

    def chance(self, p):
        return self.random() < p

    def some(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        k = self.randint(min(lo, hi), hi)
        return self.sample(seq, k)

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class Ctx:
    """What one run sees of the simulator."""

    def __init__(self, scn, scratch):
        self.scn = scn
        self.dir = scratch
        self.events = hashlib.sha256()
        self.tail = []
        self.n_events = 0
        self.probes = {}
        self.faults = {}
        self.started = False
        self.steps = 0
        self.data_s = 0
        self.nontrivial = False
        self.sig = hashlib.sha256()

    def log(self, *what):
        s = json.dumps(what, sort_keys=True, default=str)
        self.events.update(s.encode())
        self.n_events += 1
        self.tail.append(s[:300])
        if len(self.tail) > 40:
            del self.tail[0]

    def step(self, *what):
        self.steps += 1
        self.log(*what)
        self.sig.update(repr(what).encode())

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def begin(self):
        """From here on, an exception that was not injected counts against the code."""
        self.started = True

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def check(self, cond, cls, detail=''):
        if not cond:
            raise Violation(cls, detail() if callable(detail) else detail)


# ---------------------------------------------------------------- loading the code

def load_nilmtk():
    """Import nilmtk from /repo, with the stand-in for nilm_metadata."""
    warnings.simplefilter('ignore')
    for p in (os.path.join(VERIF, 'stubs'), REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    sys.path.insert(0, sys.path.pop(sys.path.index(REPO)))
    import pandas, numpy, tables          # noqa
    import nilmtk
    assert os.path.realpath(nilmtk.__file__).startswith(REPO + '/'), nilmtk.__file__
    # The statistics cache is an open temporary file: each run gets its own, in its scratch.
    nilmtk.STATS_CACHE.close()
    warnings.simplefilter('ignore')
    global SimHDFFault, INJECTED

    class _F(tables.HDF5ExtError, SimHDFFault):
        pass
    _F.__name__ = 'SimHDFFault'
    import faults
    faults.HDF_FAULT = _F
    return nilmtk


def fresh_process_state(scratch):
    """What a new process would have: an empty cache and no known meters."""
    import nilmtk
    tempfile.tempdir = os.path.join(scratch, 'tmp')
    os.makedirs(tempfile.tempdir, exist_ok=True)
    try:
        nilmtk.STATS_CACHE.close()
    except Exception:
        pass
    from nilmtk import TmpDataStore, MeterGroup
    nilmtk.STATS_CACHE = TmpDataStore()
    nilmtk.global_meter_group = MeterGroup()
    nilmtk.ElecMeter.meter_devices = {}


# ---------------------------------------------------------------- one run

def execute(prop, scn, scratch, quiet=True):
    """Run a scenario in this process.  -> result dict"""
    import numpy as np
    ctx = Ctx(scn, scratch)
    out = {'ok': True}
    random.seed(scn.get('rs', 0))
    np.random.seed(scn.get('rs', 0) & 0x7fffffff)
    cwd = os.getcwd()
    os.chdir(scratch)
    import faults
    try:
        fresh_process_state(scratch)
        try:
            if quiet:
                with open(os.devnull, 'w') as nul:
                    old = sys.stdout
                    sys.stdout = nul
                    try:
                        prop.run(scn, ctx)
                    finally:
                        sys.stdout = old
            else:
                prop.run(scn, ctx)
        finally:
            faults.PLANE.reset()
    except Violation as v:
        out = {'ok': False, 'cls': v.cls, 'detail': v.detail[:2000]}
    except BaseException as e:
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if ctx.started:
            out = {'ok': False, 'cls': 'exception:' + type(e).__name__, 'detail': tb[-3000:]}
        else:
            out = {'ok': False, 'harness': True, 'cls': 'harness', 'detail': tb[-4000:]}
    finally:
        os.chdir(cwd)
    out.update(digest=ctx.events.hexdigest()[:16], n_events=ctx.n_events, probes=ctx.probes,
               faults=ctx.faults, steps=ctx.steps, data_s=ctx.data_s,
               nontrivial=ctx.nontrivial, sig=ctx.sig.hexdigest()[:16], tail=ctx.tail)
    return out


def run_forked(prop, scn, base, timeout=RUN_TIMEOUT):
    """Run a scenario in a forked child.  -> result dict"""
    scratch = tempfile.mkdtemp(prefix='run-', dir=base)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if not os.environ.get('SIM_STDERR'):
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            out = execute(prop, scn, scratch)
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = time.monotonic() + timeout
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if hung:
        return {'ok': False, 'cls': 'no-progress', 'detail': 'run did not finish within %d s' % timeout}
    try:
        return json.loads(buf)
    except ValueError:
        if os.WIFSIGNALED(status):
            return {'ok': False, 'cls': 'process-died', 'detail': 'signal %d' % os.WTERMSIG(status)}
        return {'ok': False, 'harness': True, 'cls': 'harness', 'detail': 'child status %r' % status}


def make(prop, seed, i, tier):
    rng = Rng(derive(seed, prop.ID, i))
    scn = prop.gen(rng, tier)
    scn.setdefault('rs', rng.getrandbits(30))
    scn = json.loads(json.dumps(scn))      # what the replay file will hold
    return scn


# ---------------------------------------------------------------- minimising

def _paths(node, pre=()):
    """All lists below `node`, deepest last, except those under a key starting with '_'."""
    if isinstance(node, dict):
        for k, v in node.items():
            if not k.startswith('_'):
                yield from _paths(v, pre + (k,))
    elif isinstance(node, list):
        if pre:
            yield pre
        for i, v in enumerate(node):
            yield from _paths(v, pre + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _set(node, path, val):
    node = copy.deepcopy(node)
    _get(node, path[:-1])[path[-1]] = val
    return node


def _ints(node, pre=()):
    if isinstance(node, dict):
        for k, v in node.items():
            if not k.startswith('_') and k not in ('rs', 'i', 't0'):
                yield from _ints(v, pre + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _ints(v, pre + (i,))
    elif isinstance(node, int) and not isinstance(node, bool):
        yield pre


def shrink(prop, scn, cls, base, budget_s=60, max_tries=400):
    """Drop steps and faults, then make numbers smaller, while the same class of violation stays."""
    t_end = time.monotonic() + budget_s
    tries = [0]
    valid = getattr(prop, 'valid', None)

    def fails(s):
        if tries[0] >= max_tries or time.monotonic() > t_end:
            return False
        tries[0] += 1
        try:
            if valid is not None and not valid(s):
                return False
        except Exception:
            return False
        r = run_forked(prop, s, base)
        return (not r['ok']) and not r.get('harness') and r['cls'] == cls

    improved = True
    while improved and tries[0] < max_tries and time.monotonic() < t_end:
        improved = False
        for keys in (getattr(prop, 'SHRINK', None),):
            for path in list(_paths(scn)):
                if keys is not None and path[-1] not in keys:
                    continue
                try:
                    lst = _get(scn, path)
                except (KeyError, IndexError, TypeError):
                    continue
                if not isinstance(lst, list):
                    continue
                size = max(1, len(lst) // 2)
                while size >= 1 and lst:
                    i = 0
                    while i < len(lst):
                        cand = _set(scn, path, lst[:i] + lst[i + size:])
                        if fails(cand):
                            scn = cand
                            lst = _get(scn, path)
                            improved = True
                        else:
                            i += size
                    size //= 2
        for path in list(_ints(scn)):
            try:
                v = _get(scn, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(v, int) or isinstance(v, bool):
                continue
            for c in (0, 1, 2, v // 2, v - 1):
                if 0 <= c < v:
                    cand = _set(scn, path, c)
                    if fails(cand):
                        scn = cand
                        improved = True
                        break
    return scn, tries[0]


def in_fork(fn):
    """fn() in a child process which starts with the state of this one; -> its JSON value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ['ok', fn()]
            except BaseException as e:
                out = ['error', type(e).__name__, ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[-1500:]]
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf)
