"""Seams: every source of nondeterminism or failure the properties depend on goes behind one of these.

They are installed *before* simphox is imported, so that no hook in /repo is needed:

- source loading: modules of /repo are always compiled from their current source (no stale .pyc);
- the native MKL library (`ctypes.CDLL('libmkl_rt.so')`): calls go through a proxy which can inject what the real
  library reports (error codes, perturbed pivots, garbage results), raise (failing allocation, interrupt) and which
  tracks what the real library does not check (solving without a factorization, one handle used by two threads);
- locks created by simphox: blocking becomes a decision of the simulated scheduler;
- scipy's eigs (the ARPACK start vector, failures), gmres, bicgstab, spilu (convergence);
- an interrupter, which raises at the n-th executed line of simphox (KeyboardInterrupt, MemoryError).
"""
import ctypes
import importlib.machinery
import os
import random as _random
import sys
import threading

import numpy as np

from .core import HarnessError

REPO = os.environ.get('DSIM_REPO', '/repo')  # another tree only while developing the checks
PKG = REPO + '/simphox'

_real = {}
installed = False


class SeamState:
    """What the simulator injects and observes at the seams during a run (reset for each run)."""

    def __init__(self):
        self.ctx = None
        self.sched = None            # thread scheduler, if this run has one
        self.native_faults = []      # queue of fault dicts, consumed by the matching native calls
        self.native_calls = 0
        self.thread_faults = {}      # index of a simulated thread -> fault for its next native call
        self.handles = {}            # address of the handle -> what is factorized there
        self.in_native = {}          # pt address -> thread ident using it
        self.misuse = []             # what the real library would not report
        self.eigs_faults = []
        self.eigs_seed = None
        self.eigs_calls = 0
        self.iter_mode = None        # None: real; else callable(name, A, b, kwargs) -> (x, info)
        self.ilu_fake = False


S = SeamState()


def reset(ctx=None):
    handles = S.handles  # the native library keeps its handles across runs of one process
    S.__init__()
    S.handles = handles
    S.ctx = ctx


# ------------------------------------------------------------------------------------------------- native library

def _ival(arg):
    """Value of an integer passed by reference in any of the usual ctypes ways."""
    try:
        if hasattr(arg, '_obj'):
            return int(arg._obj.value)
        if hasattr(arg, 'contents'):
            return int(arg.contents.value)
        if hasattr(arg, 'value'):
            return int(arg.value)
        return int(arg[0])
    except Exception:
        return None


def _set_ival(arg, v):
    if hasattr(arg, '_obj'):
        arg._obj.value = v
    elif hasattr(arg, 'contents'):
        arg.contents.value = v
    else:
        arg[0] = v


def _addr(arg):
    try:
        if hasattr(arg, '_obj'):
            return ctypes.addressof(arg._obj)
        return ctypes.cast(arg, ctypes.c_void_p).value
    except Exception:
        try:
            return int(arg.ctypes.data)
        except Exception:
            return None


def _fill_garbage(ptr, nbytes, seed):
    addr = _addr(ptr)
    if addr and 0 < nbytes <= 1 << 28:
        junk = np.random.RandomState(seed % (1 << 32)).standard_normal(nbytes // 8)
        ctypes.memmove(addr, junk.ctypes.data, junk.nbytes)


class FnProxy:
    """Stands in for one native function; attribute access (argtypes, restype) goes to the real one."""

    def __init__(self, fn, name):
        object.__setattr__(self, '_fn', fn)
        object.__setattr__(self, '_name', name)

    def __getattr__(self, k):
        return getattr(self._fn, k)

    def __setattr__(self, k, v):
        setattr(self._fn, k, v)

    def __call__(self, *args):
        if self._name in ('pardiso', 'PARDISO') and len(args) == 16:
            return _pardiso(self._fn, args)
        if self._name in ('pardisoinit', 'PARDISOINIT') and args:
            S.handles.pop(_addr(args[0]), None)
        return self._fn(*args)


def _pardiso(fn, args):
    pt, maxfct, mnum, mtype, phase, n, a, ia, ja, perm, nrhs, iparm, msglvl, b, x, error = args
    key, ph = _addr(pt), _ival(phase)
    me = threading.get_ident()
    S.native_calls += 1
    if S.sched is not None:
        S.sched.yield_point('native-enter')  # ctypes releases the GIL: anybody may run
    other = S.in_native.get(key)
    if other is not None and other != me:
        S.misuse.append(f'two threads inside the solver with one handle (phase {ph})')
    S.in_native[key] = me
    try:
        if S.sched is not None:
            S.sched.yield_point('native-run')
        fault = None
        if S.thread_faults and S.sched is not None and S.sched.is_sim_thread():
            fault = S.thread_faults.pop(S.sched.by_ident[me]['idx'], None)
        for i, f in enumerate(S.native_faults):
            if fault is None and (f.get('phases') is None or ph in f['phases']):
                if f.get('skip', 0) > 0:
                    f['skip'] -= 1
                    continue
                fault = S.native_faults.pop(i)
                break
        if fault is not None:
            if S.ctx is not None:
                S.ctx.fault('native-' + fault['kind'])
            f_n, f_rhs = _ival(n) or 0, _ival(nrhs) or 0
            item = 16 if _ival(mtype) in (3, 4, -4, 6, 13) else 8
            if fault['kind'] == 'raise':
                raise {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
                       'OSError': OSError}[fault['exc']]('injected')
            if fault['kind'] == 'error':  # fails before doing anything
                if ph in (12, 13, 11):
                    S.handles.pop(key, None)
                _set_ival(error, fault['code'])
                return None
            if fault['kind'] == 'error-late':  # fails after destroying the factorization, garbage in x
                S.handles.pop(key, None)
                if f_rhs:
                    _fill_garbage(x, item * f_n * f_rhs, fault.get('seed', 1))
                _set_ival(error, fault['code'])
                return None
            if fault['kind'] == 'pivots':  # the library perturbs pivots and goes on: a poor solution
                r = fn(*args)
                if f_rhs:
                    _fill_garbage(x, item * f_n * f_rhs, fault.get('seed', 1))
                S.handles.pop(key, None)
                iparm[13] = int(fault['code'])
                return r
        if ph == 33 and key not in S.handles:
            S.misuse.append('a solve was requested of the native solver without a valid factorization')
            _set_ival(error, -3)  # do not let it read what is not there
            return None
        r = fn(*args)
        err = _ival(error)
        if ph in (12, 13) and err == 0:
            S.handles[key] = (_ival(n), _ival(mtype))
        elif ph in (0, -1, 12, 13):
            S.handles.pop(key, None)
        return r
    finally:
        if S.in_native.get(key) == me:
            S.in_native.pop(key, None)
        if S.sched is not None:
            S.sched.yield_point('native-exit')


class LibProxy:
    def __init__(self, lib):
        self._lib = lib
        self._fns = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name not in self._fns:
            self._fns[name] = FnProxy(getattr(self._lib, name), name)
        return self._fns[name]

    def __getitem__(self, name):
        return getattr(self, name)


def _cdll(name, *a, **k):
    lib = _real['CDLL'](name, *a, **k)
    if name is not None and 'mkl_rt' in str(name):
        return LibProxy(lib)
    return lib


# ------------------------------------------------------------------------------------------------- locks

class SimLock:
    """Lock of the code under test: real exclusion, but who waits and who runs next is the scheduler's decision."""

    def __init__(self, reentrant):
        self._real = _real['RLock']() if reentrant else _real['Lock']()
        self._reentrant = reentrant
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        sched = S.sched
        if sched is None or not sched.is_sim_thread():
            ok = self._real.acquire(blocking, timeout)
        else:
            sched.yield_point('lock')
            while True:
                ok = self._real.acquire(False)
                if ok or not blocking:
                    break
                if not sched.block(self, timed=timeout is not None and timeout >= 0):
                    break
        return ok

    def release(self):
        self._real.release()
        sched = S.sched
        if sched is not None and sched.is_sim_thread():
            sched.wake(self)
            sched.yield_point('unlock')

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        if self._reentrant:
            if self._real.acquire(False):
                self._real.release()
                return False
            return True
        return self._real.locked()

    # used by threading.Condition
    def _is_owned(self):
        if self._reentrant:
            return self._real._is_owned()
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def _release_save(self):
        if self._reentrant:
            s = self._real._release_save()
        else:
            s = self._real.release()
        if S.sched is not None and S.sched.is_sim_thread():
            S.sched.wake(self)
        return s

    def _acquire_restore(self, s):
        self.acquire()
        if self._reentrant:
            for _ in range(s[0] - 1 if isinstance(s, tuple) else 0):
                self._real.acquire()


def _from_simphox(depth=4):
    f = sys._getframe(2)
    for _ in range(depth):
        if f is None:
            return False
        if str(f.f_globals.get('__name__', '')).split('.')[0] == 'simphox':
            return True
        if f.f_globals.get('__name__') not in ('threading', 'dsim.seams', 'dataclasses', 'copy'):
            return False
        f = f.f_back
    return False


def _lock():
    return SimLock(False) if _from_simphox() else _real['Lock']()


def _rlock():
    return SimLock(True) if _from_simphox() else _real['RLock']()


# ------------------------------------------------------------------------------------------------- scipy

def _eigs(A, *args, **kwargs):
    S.eigs_calls += 1
    if S.eigs_faults and S.eigs_faults[0].get('skip', 0) > 0:
        S.eigs_faults[0]['skip'] -= 1
    elif S.eigs_faults:
        f = S.eigs_faults.pop(0)
        if S.ctx is not None:
            S.ctx.fault('eigs-' + f['exc'])
        if f['exc'] == 'noconv':
            from scipy.sparse.linalg import ArpackNoConvergence
            raise ArpackNoConvergence('injected: no convergence', np.array([]), np.zeros((A.shape[0], 0)))
        raise {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
               'RuntimeError': RuntimeError}[f['exc']]('injected')
    if S.eigs_seed is not None and kwargs.get('v0') is None:
        # ARPACK's own start vector depends on the history of the process; the simulator picks it instead
        g = np.random.RandomState((S.eigs_seed + 7919 * S.eigs_calls) % (1 << 32))
        kwargs['v0'] = g.uniform(-1, 1, A.shape[0]) + 1j * g.uniform(-1, 1, A.shape[0])
        kwargs['v0'] = kwargs['v0'].astype(np.promote_types(A.dtype, np.float64))\
            if np.issubdtype(A.dtype, np.complexfloating) else kwargs['v0'].real
    return _real['eigs'](A, *args, **kwargs)


def _iterative(name):
    def solver(A, b, *args, **kwargs):
        if S.iter_mode is not None:
            return S.iter_mode(name, A, b, kwargs)
        return _real[name](A, b, *args, **kwargs)
    return solver


class _FakeIlu:
    def solve(self, v):
        return v


def _spilu(A, *args, **kwargs):
    if S.ilu_fake:
        return _FakeIlu()
    return _real['spilu'](A, *args, **kwargs)


# ------------------------------------------------------------------------------------------------- interrupts

class Interrupter:
    """Raises `exc` at the n-th line executed in files of /repo/simphox (in the current thread) inside `with`."""

    def __init__(self, n, exc, only=None):
        self.n, self.exc, self.count, self.fired, self.only = n, exc, 0, False, only
        self.where = None

    def _local(self, frame, event, arg):
        if event == 'line' and not self.fired:
            self.count += 1
            if self.n is not None and self.count > self.n:
                self.fired = True
                self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}'
                raise self.exc('injected')
        return self._local

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(PKG) and (self.only is None or os.path.basename(fn) in self.only):
            return self._local
        return None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        return False


# ------------------------------------------------------------------------------------------------- install

def install():
    global installed
    if installed:
        return
    if any(m.split('.')[0] == 'simphox' for m in sys.modules):
        raise HarnessError('simphox was imported before the seams were installed')
    installed = True
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)

    loader = importlib.machinery.SourceFileLoader
    path_stats = loader.path_stats

    def _path_stats(self, path):
        if path.startswith(REPO + '/'):
            raise OSError('always compile from source')
        return path_stats(self, path)
    loader.path_stats = _path_stats

    # everything heavy that is not simphox is imported with the real primitives
    import jax  # noqa
    import jax.numpy  # noqa
    import jax.experimental.host_callback  # noqa
    import jax.example_libraries.optimizers  # noqa
    import scipy.sparse.linalg as spl
    import scipy.stats, scipy.signal, xarray, pandas, haiku, skimage.draw, matplotlib.pyplot, pydantic  # noqa

    _real['CDLL'] = ctypes.CDLL
    _real['Lock'], _real['RLock'] = threading.Lock, threading.RLock
    ctypes.CDLL = _cdll
    ctypes.cdll._dlltype = _cdll
    threading.Lock, threading.RLock = _lock, _rlock
    _real['_allocate_lock'] = threading._allocate_lock
    threading._allocate_lock = lambda: SimLock(False) if _from_simphox(6) else _real['_allocate_lock']()
    _real['eigs'], _real['gmres'], _real['bicgstab'], _real['spilu'] = spl.eigs, spl.gmres, spl.bicgstab, spl.spilu
    spl.eigs, spl.gmres, spl.bicgstab, spl.spilu = _eigs, _iterative('gmres'), _iterative('bicgstab'), _spilu

    import simphox
    if not os.path.realpath(simphox.__file__).startswith(PKG + '/'):
        raise HarnessError(f'simphox was imported from {simphox.__file__}')


def seed_globals(seed):
    """The ambient random generators of the process are part of the simulated environment."""
    _random.seed(seed)
    np.random.seed(seed % (1 << 32))
