"""C03: a failing or interrupted solve is reported and leaves nothing behind."""
import warnings

import numpy as np
import scipy.sparse as sp

from ..core import Violation, nprng, sig
from ..ref import RefGrid, RefModes, RefPorts, backward_error
from ..seams import Interrupter
from .c01 import COMPLEX, base_matrix, relate

ID = 'C03'
TITLE = 'A failing or interrupted solve is reported and leaves nothing behind'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 500, 'thorough': 10000}
NOTE = ('Seeded fault sequences at every seam of the solvers (native error codes, perturbed pivots, failing '
        'allocations, interrupts at any executed line, singular systems, malformed inputs, non-convergence); the '
        'fault points of one operation are sampled, not enumerated exhaustively.')
RULE = 'a history of 6-25 solves, about half of them with one injected fault, each followed by solves that have to be right.'
STATE = 'hash of (operation, fault kind, where it hit, outcome)'
REAL = ['simphox.mkl', 'simphox.fdfd', 'simphox.mode', 'simphox.sim', 'simphox.grid', 'Intel MKL Pardiso (native)',
        'scipy eigs (ARPACK) and dense algebra']
STUB = ['failures of the native solver and of eigs at the call boundary', 'scipy gmres, bicgstab and spilu (their '
        'convergence is decided by the simulator, the system they get is checked)', 'interrupts (trace function)']
ASSUMES = ['a failing native call may leave garbage in its output and lose the factorization',
           'interrupts arrive between two executed lines of simphox']
PROPERTY = {
    'statement': 'When a solve cannot be done - the native solver reports an error or perturbed pivots, an allocation '
                 'fails, the system is singular, the inputs are malformed, an iterative or eigenvalue solver does not '
                 'converge, or the user interrupts it - the caller gets an exception and never wrong numbers. '
                 'Afterwards the solvers, simulations and mode solvers are usable and give right results, as if the '
                 'failed operation had not been tried.',
    'quantifier': {'over': ['fault_sequences', 'crash_points', 'histories'],
                   'text': 'all sequences of solves with any of these failures at any point of any of them'},
    'why_tests_cant': 'The tests never make the native solver, an eigenvalue solver or an allocation fail and never '
                      'interrupt a solve, so what the failure leaves in the shared solver, the caches and the objects '
                      'is not reached.',
    'anchors': {
        'files': ['simphox/mkl.py', 'simphox/fdfd.py', 'simphox/mode.py', 'simphox/sim.py'],
        'state': [{'name': 'factorization', 'meaning': 'what the native library holds after a failed call',
                   'where': 'simphox/mkl.py Pardiso'},
                  {'name': 'mode cache', 'meaning': 'modes of port cross sections', 'where': 'simphox/sim.py SimGrid.modes'}],
        'mechanism': [{'name': 'error and pivot checks after the native call', 'where': 'simphox/mkl.py Pardiso.pardiso'},
                      {'name': 'convergence check', 'where': 'simphox/fdfd.py FDFD.solve'},
                      {'name': 'wavelength restored', 'where': 'simphox/mode.py dispersion_sweep, ModeLibrary'}],
        'observe_at': ['exceptions and results of the public solve functions'],
        'hook_needed': None},
}

SIZE, D, SHAPE = (2.4, 2.0), .1, (24, 20)
PORTS = {'a0': (.4, 1.0, 180, .4, 0, 0), 'b0': (2.0, 1.0, 0, .4, 0, 0)}


def setup():
    import simphox.fdfd, simphox.mkl  # noqa


def gen(rng, tier):
    mats = [{'n': rng.choice([3, 8, 30, 120]), 'seed': rng.seed32(), 'density': rng.choice([2, 5])}]
    mats.append({**mats[0], 'seed': rng.seed32()})
    owns = [rng.choice([13, 11, 6, 2, -2, 4, -4]) for _ in range(rng.randrange(0, 2))]
    scene = rng.choice(['linear', 'linear', 'sim', 'iter', 'mode'])
    kinds = {'linear': [('solve', 10), ('factor', 2), ('bad', 3), ('free', .5)],
             'sim': [('fdfd', 6), ('source', 4), ('measure', 2), ('solve', 2), ('edit', 2), ('badsrc', 1)],
             'iter': [('iter', 8), ('direct3d', 1), ('solve', 2)],
             'mode': [('modesolve', 4), ('sweep', 3), ('library', 4), ('update', 5)]}[scene]
    ops = []
    for _ in range(rng.randrange(5, 22 if scene == 'linear' else 12)):
        k = rng.weighted(kinds)
        op = {'op': k, 'seed': rng.seed32(), 'fault': None}
        if k in ('solve', 'factor', 'bad', 'free'):
            op.update(inst=rng.randrange(len(owns) + 1), mat=rng.randrange(2),
                      rel=rng.choice(['same-object', 'equal-copy', 'tweak', 'other', 'transpose', 'same-object']),
                      rhs=rng.choice(['vec', 'vec', 'multi', 'same']))
        if k == 'bad':
            op['how'] = rng.choice(['rhs-long', 'rhs-short', 'non-square', 'dtype', 'not-sparse', 'rhs-list', 'singular',
                                    'zero-row', 'zero-matrix'])
        if k == 'fdfd':
            op['pol'] = rng.choice(['tm', 'te'])
        if k in ('iter',):
            op.update(which=rng.choice([1, 2]), mode=rng.choice(['ok', 'ok', 'info', 'negative', 'raise', 'real']))
        if k in ('sweep', 'update', 'library', 'modesolve'):
            op.update(wl=rng.choice([1.2, 1.31, 1.55, 1.7]), num=rng.choice([1, 2, 3]), n=rng.randrange(1, 4))
        if rng.chance(.55):
            faults = []
            if k in ('solve', 'factor', 'fdfd', 'direct3d'):
                faults += [{'kind': 'error', 'code': rng.choice([-1, -2, -3, -4, -7, -9, -10]), 'seed': rng.seed32()},
                           {'kind': 'error-late', 'code': rng.choice([-2, -4, -8]), 'seed': rng.seed32()},
                           {'kind': 'raise', 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt', 'OSError'])}]
                if k != 'factor':
                    faults.append({'kind': 'pivots', 'code': rng.randrange(1, 9), 'seed': rng.seed32()})
            if k in ('source', 'measure', 'modesolve', 'sweep', 'library', 'update'):
                faults += [{'kind': 'eigs', 'exc': rng.choice(['noconv', 'MemoryError', 'KeyboardInterrupt', 'RuntimeError']),
                            'skip': rng.choice([0, 0, 1])}] * 2
            if k not in ('bad', 'free', 'edit', 'badsrc'):
                n = rng.choice([rng.randrange(0, 30), rng.randrange(0, 120), rng.randrange(0, 400)])
                faults += [{'kind': 'interrupt', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError']), 'n': n}]
            if faults:
                op['fault'] = rng.choice(faults)
        ops.append(op)
    return {'config': {'scene': scene, 'mats': mats, 'owns': owns, 'eps': rng.seed32()}, 'ops': ops}


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
INJECTED = (RuntimeError, MemoryError, KeyboardInterrupt, OSError, ValueError)


class Guarded:
    """Runs an operation with its fault: returns ('ok', result) or ('error', exception)."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, op, fn):
        from ..seams import S
        f = op.get('fault')
        ir = None
        native = None
        if f and f['kind'] in ('error', 'error-late', 'raise', 'pivots'):
            native = dict(f)
            S.native_faults = [native]
        elif f and f['kind'] == 'eigs':
            S.eigs_faults = [dict(f)]
        elif f and f['kind'] == 'interrupt':
            ir = Interrupter(f['n'], EXC[f['exc']])
        try:
            if ir is not None:
                with ir:
                    r = fn()
            else:
                r = fn()
            out = 'ok', r
        except Violation:
            raise
        except BaseException as e:  # noqa
            fired = ir.fired if ir is not None else f is not None and not S.native_faults and not S.eigs_faults
            if not fired:
                raise
            out = 'error', e
        finally:
            S.native_faults, S.eigs_faults = [], []
            if ir is not None and ir.fired:
                self.ctx.fault('interrupt')
                self.ctx.log('interrupted in', ir.where)
        self.ctx.state(op['op'], f and f['kind'], ir.where if ir is not None and ir.fired else None, out[0])
        return out


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    from simphox.mkl import Pardiso, spsolve_pardiso
    from simphox.mode import ModeLibrary, ModeSolver
    from ..seams import S
    cfg = plan['config']
    S.eigs_seed = 11
    go = Guarded(ctx)
    insts = [(13, None)] + [(m, Pardiso(m)) for m in cfg['owns']]
    used, mats, last = set(), {}, {}
    g0 = nprng(cfg['eps'])
    eps = 1 + 1. * (g0.uniform(0, 1, SHAPE) > .7)
    eps[:, 8:12] = 8
    sim = None
    if cfg['scene'] == 'sim':
        sim = FDFD(SIZE, D, wavelength=1.5, eps=eps)
        sim.port = {k: Port(*v) for k, v in PORTS.items()}
    if cfg['scene'] == 'iter':
        eps3 = 1 + 2 * g0.uniform(0, 1, (5, 4, 6))
        sim3 = FDFD((.5, .4, .6), .1, wavelength=1.5, eps=eps3)
        ref3 = RefGrid((.5, .4, .6), .1, eps3, 1.5)
    if cfg['scene'] == 'mode':
        meps = 1 + .3 * g0.uniform(0, 1, 24)
        meps[9:15] += 7
        solver = ModeSolver((2.4,), .1, 1.55, meps)
        lib, lib_wl, lib_num = None, None, None
        solver_wl = 1.55
    for k, op in enumerate(plan['ops']):
        ctx.op_index = k
        g = nprng(op['seed'])
        o = op['op']
        if o in ('solve', 'factor', 'bad', 'free'):
            idx = min(op['inst'], len(insts) - 1)
            mtype, solver_ = insts[idx]
            cplx = mtype in COMPLEX
            key = (idx, op['mat'])
            spec = cfg['mats'][op['mat']]
            mat = base_matrix(spec, mtype) if key not in mats else relate(op['rel'], mats[key], spec, mtype, g)
            mat = sp.csr_matrix(mat)
            mats[key] = mat
            n = mat.shape[0]

            def call(m, b):
                return spsolve_pardiso(m, b) if solver_ is None else solver_.solve(m, b)
            if o == 'factor':
                if solver_ is None:
                    continue
                st, _ = go(op, lambda: solver_.factor(mat))
                used.add(idx) if st == 'ok' else used.discard(idx)
                ctx.log(k, 'factor', idx, op['rel'], st)
                continue
            if o == 'free':
                if solver_ is not None and idx in used:
                    solver_.free()
                    used.discard(idx)
                continue
            shape = (n, 3) if op['rhs'] == 'multi' else (n,)
            b = g.uniform(-1, 1, shape) + (1j * g.uniform(-1, 1, shape) if cplx else 0)
            if op['rhs'] == 'same' and last.get(idx) is not None and last[idx].shape[0] == n:
                b = last[idx]
            last[idx] = b
            if o == 'bad':
                how, m2, b2 = op['how'], mat, b
                if how == 'rhs-long':
                    b2 = np.concatenate([b, b[:1]])
                elif how == 'rhs-short':
                    b2 = b[:-1]
                elif how == 'non-square':
                    m2 = sp.csr_matrix(sp.vstack([mat, mat[:1]]))
                    b2 = np.concatenate([b, b[:1]])
                elif how == 'dtype':
                    m2 = sp.csr_matrix(mat.real if cplx else mat.astype(complex))
                elif how in ('not-sparse', 'rhs-list'):
                    m2, b2 = (mat.toarray(), b) if how == 'not-sparse' else (mat, [1.] * n)
                elif how == 'singular' and mtype in (13, 11):
                    j = g.randint(n)
                    m2 = mat.tolil()
                    m2[j] = m2[(j + 1) % n]
                    m2 = sp.csr_matrix(m2)
                elif how == 'zero-row' and mtype in (13, 11):
                    z = np.ones(n)
                    z[g.randint(n)] = 0
                    m2 = sp.csr_matrix(sp.diags(z) @ mat)
                else:
                    m2 = mat * 0
                malformed = how in ('rhs-long', 'rhs-short', 'non-square', 'dtype', 'not-sparse', 'rhs-list')
                try:
                    if malformed and solver_ is not None and how in ('not-sparse', 'rhs-list'):
                        continue
                    x = call(m2, b2)
                    used.add(idx)
                except Exception as e:  # noqa
                    ctx.fault('bad-' + how)
                    ctx.state('bad', how, type(e).__name__)
                    ctx.log(k, 'bad', how, 'error')
                    used.discard(idx)
                    ctx.checks += 1
                    continue
                ctx.check(not malformed, 'no-error', f'malformed input ({how}) was accepted, returned shape {np.shape(x)}')
                if np.all(np.isfinite(x)):
                    be = backward_error(m2, np.asarray(x).reshape(b2.shape), b2)
                    ctx.check(be < 1e-6, 'wrong-solution', f'singular system ({how}): no error, but the result does not '
                                                           f'solve it (relative residual {be:.3g})')
                ctx.log(k, 'bad', how, 'solved')
                continue
            st, x = go(op, lambda: call(mat, b))
            if st == 'ok':
                used.add(idx)
                x = np.asarray(x)
                ctx.check(x.shape == b.shape, 'wrong-shape', f'{x.shape} {b.shape}')
                be = backward_error(mat, x, b)
                f = op.get('fault')
                ctx.check(be < 1e-9, 'wrong-solution',
                          f'no error was raised and the result does not solve the given system (relative residual '
                          f'{be:.3g}; {"fault " + f["kind"] if f else "no fault"}, mtype {mtype}, {op["rel"]})')
            else:
                used.discard(idx)
            ctx.log(k, 'solve', idx, op['rel'], st, sig(x) if st == 'ok' else type(x).__name__)
        elif o == 'edit':
            eps = eps.copy()
            i, j = g.randint(0, 20), g.randint(0, 16)
            eps[i:i + 4, j:j + 4] = g.choice([1., 3., 6.])
            sim.eps = eps.copy()
        elif o == 'badsrc':
            ctx.expect(lambda: sim.solve(np.ones((5, 5))), Exception, 'no-error', 'source of the wrong size:')
            ctx.fault('bad-source')
        elif o == 'fdfd':
            src = np.zeros(SHAPE, complex)
            src[g.randint(4, 20), g.randint(4, 16)] = 1
            st, f = go(op, lambda: sim.solve(src, tm_2d=op['pol'] == 'tm'))
            if st == 'ok':
                RefGrid(SIZE, D, eps, 1.5).check_fields(ctx, f, src, op['pol'], 'wrong-fields')
            ctx.log(k, 'fdfd', st)
        elif o in ('source', 'measure'):
            rp = RefPorts(SIZE, D, eps, PORTS, 1.5)
            if o == 'source':
                st, r = go(op, lambda: sim.port_source({('b0', 0): 1, ('a0', 0): .5}))
                if st == 'ok':
                    ctx.close(r, rp.source2d({('b0', 0): 1, ('a0', 0): .5}), 'wrong-source', tol=1e-5)
            else:
                fields = g.uniform(-1, 1, (2, 3) + SHAPE + (1,)) + 0j
                st, r = go(op, lambda: sim.get_measure_fn()(fields))
                if st == 'ok':
                    ctx.close(r, rp.measure(fields, [('a0', 0), ('b0', 0)]), 'wrong-measurement', tol=1e-5)
            ctx.log(k, o, st)
        elif o in ('iter', 'direct3d'):
            src = g.uniform(-1, 1, (3, 5, 4, 6)) + 1j * g.uniform(-1, 1, (3, 5, 4, 6))
            if o == 'direct3d':
                st, f = go(op, lambda: sim3.solve(src))
                if st == 'ok':
                    ref3.check_fields(ctx, f, src, '3d', 'wrong-fields')
                ctx.log(k, o, st)
                continue
            asked = []

            def fake(name, A, b, kw):
                if op['mode'] == 'real':
                    from ..seams import _real
                    kw = dict(kw)
                    kw.pop('M', None)
                    kw['maxiter'] = 2
                    return _real[name](A, b, **kw)
                asked.append(name)
                p = g.uniform(-1, 1, b.size) + 0j
                ctx.close(A @ p, ref3.op_e(p.reshape(3, 5, 4, 6)).ravel(), 'wrong-system', tol=1e-9, msg='system matrix')
                ctx.close(np.asarray(b).ravel(), ref3.k0 * src.ravel(), 'wrong-system', tol=1e-12, msg='right-hand side')
                if op['mode'] == 'raise':
                    raise MemoryError('injected')
                x = np.linalg.solve(ref3.matrix('3d').toarray(), b)
                if op['mode'] != 'ok':
                    x = x * .5
                return x, {'ok': 0, 'info': 10000, 'negative': -1}[op['mode']]
            S.iter_mode, S.ilu_fake = fake, True
            f = op.get('fault')
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    st, r = go(op, lambda: sim3.solve(src, iterative=op['which']))
            except Violation:
                raise
            except Exception as e:  # noqa
                ctx.check(op['mode'] != 'ok', f'unexpected-{type(e).__name__}', f'converged iterative solve: {e}')
                ctx.fault('iterative-' + op['mode'])
                st, r = 'error', e
            finally:
                S.iter_mode, S.ilu_fake = None, False
            if st == 'ok':
                be = ref3.check_fields(ctx, r, src, '3d', 'not-converged-accepted' if op['mode'] != 'ok' else 'wrong-fields',
                                       tol=1e-4 if op['mode'] == 'real' else 1e-9, msg=f'iterative solver reported {op["mode"]},')
            ctx.log(k, o, op['mode'], st)
        elif o == 'modesolve':
            solver.wavelength = op['wl']
            solver_wl = op['wl']
            st, r = go(op, lambda: solver.solve(op['num']))
            if st == 'ok':
                check_modes(ctx, r, meps, op['wl'], op['num'])
            ctx.check(solver.wavelength == solver_wl, 'state-left-behind', 'wavelength of the mode solver changed')
            ctx.log(k, o, st)
        elif o == 'sweep':
            wls = np.array([op['wl'] + .07 * i for i in range(op['n'])])
            st, r = go(op, lambda: solver.dispersion_sweep(wls, op['num']))
            if op.get('fault') is None or op['fault']['kind'] != 'interrupt':
                # (an interrupt between two arbitrary lines may come before the restoring code is entered)
                ctx.check(solver.wavelength == solver_wl, 'state-left-behind',
                          f'dispersion sweep ({st}) left the solver at wavelength {solver.wavelength}')
            solver.wavelength = solver_wl
            if st == 'ok':
                ctx.check(len(r) == len(wls), 'wrong-modes', f'{len(r)} solutions for {len(wls)} wavelengths')
                for w, s in zip(wls, r):
                    check_modes(ctx, s, meps, w, op['num'])
            ctx.log(k, o, st)
        elif o == 'library':
            def make():
                return ModeLibrary(ModeSolver((2.4,), .1, op['wl'], meps), op['num'])
            st, r = go(op, make)
            if st == 'ok':
                lib, lib_wl, lib_num = r, op['wl'], op['num']
                check_library(ctx, lib, meps, lib_wl, lib_num)
            ctx.log(k, o, st)
        elif o == 'update' and lib is not None:
            st, r = go(op, lambda: lib.update_wavelength(op['wl']))
            if st == 'ok':
                lib_wl = op['wl']
            elif op['fault']['kind'] == 'interrupt':
                lib = None  # an interrupt at an arbitrary line may hit between two assignments: the object is given up
                continue
            check_library(ctx, lib, meps, lib_wl, lib_num)
            ctx.log(k, o, st)
    ctx.op_index = len(plan['ops'])
    # the process-wide solver is still usable
    a = base_matrix({'n': 12, 'seed': 4, 'density': 3}, 13)
    b = np.arange(12) + 1j
    be = backward_error(a, spsolve_pardiso(a, b), b)
    ctx.check(be < 1e-9, 'wrong-solution', f'final solve on the process-wide solver (relative residual {be:.3g})')
    ctx.check(not S.misuse, 'native-misuse', lambda: '; '.join(S.misuse))


def check_modes(ctx, res, eps, wl, num):
    betas, modes = res
    ref = RefModes(eps, .1, wl, num)
    ctx.close(np.asarray(betas), ref.betas, 'wrong-modes', tol=1e-6, msg='propagation constants')
    ctx.check(np.shape(modes)[0] == len(ref.betas), 'wrong-modes', f'{np.shape(modes)}')
    for b, h in zip(betas, modes):
        r = np.linalg.norm(ref.c @ h - b ** 2 * h) / np.linalg.norm(h) / np.max(np.abs(ref.c))
        ctx.check(r < 1e-6, 'wrong-modes', lambda: f'not an eigenmode (residual {r:.3g})')


def check_library(ctx, lib, eps, wl, num):
    ref = RefModes(eps, .1, wl, num)
    ctx.check(lib.m == lib.num_modes == len(ref.betas), 'wrong-modes', f'{lib.m} modes, expected {len(ref.betas)}')
    ctx.close(lib.ns, ref.betas / ref.k0, 'wrong-modes', tol=1e-6, msg='effective indices')
    for i in range(lib.m):
        for name in ('e', 'h'):
            got, want = getattr(lib, name)(i), getattr(ref, name)(i)
            ph = np.vdot(got, want)
            ctx.close(got * (ph / abs(ph) if abs(ph) else 1), want, 'wrong-modes', tol=1e-4, msg=f'{name} of mode {i}')
