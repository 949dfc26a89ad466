"""C14: aborted optimizations leave nothing behind; sessions of several optimizations do not influence each other."""
import numpy as np

from ..core import nprng, sig
from ..ref import RefGrid
from .c13 import Session
from .optsim import D, SIZE, SHAPE, base_eps, draw_problems, draw_run, draw_sims, transform

ID = 'C14'
TITLE = 'Aborted, failed and earlier optimizations do not influence later ones'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 36, 'thorough': 4000}
TIME_UNIT = 'iterations of the optimizer'
NOTE = 'Seeded search over the points at which an optimization is interrupted or fails and over what happens before and after; not exhaustive.'
RULE = ('1-2 simulations, 1-3 problems and 3-6 operations: optimizations that are interrupted at a drawn line or fail in '
        'the native solver, a progress bar, a pipe, a metric or a cost function at a drawn iteration; complete '
        'optimizations; direct solves; permittivity edits; new problems on the same simulations.')
STATE = 'hash of (faults so far, last operation)'
REAL = ['simphox.opt', 'simphox.fdfd', 'simphox.sim', 'simphox.primitives', 'simphox.mkl', 'simphox.mode', 'JAX', 'Intel MKL Pardiso']
STUB = ['progress bar and visualization pipes (failing stand-ins)', 'failures of the native library (injected at its calls)',
        'ARPACK start vector (seeded)']
ASSUMES = ['2D TM simulations', 'an aborted run may leave the permittivity of any of its iterations in its simulations']
PROPERTY = {
    'statement': 'Whenever an optimization is interrupted or fails (in the solver, an observer, a metric or a cost), the '
                 'failure reaches the caller, the permittivity of its simulations is T(rho) of one of its iterations (or '
                 'as before), and the simulations, problems and solver remain usable: repeating the optimization, running '
                 'others before, or using the simulations in between gives the same costs, parameters and records as in a '
                 'fresh session, and direct solves solve the equations for the current permittivity.',
    'quantifier': {'over': ['fault_sequences', 'crash_points', 'histories'],
                   'text': 'all points at which an optimization is aborted and all sequences of optimizations, solves and edits'},
    'why_tests_cant': 'No test runs an optimization, let alone aborts one; leftovers (factorizations, permittivities, '
                      'histories) show in the next one.',
    'anchors': {
        'files': ['simphox/opt.py', 'simphox/sim.py', 'simphox/fdfd.py', 'simphox/primitives.py', 'simphox/mkl.py'],
        'state': [{'name': 'permittivity and factorization', 'meaning': 'what optimizations share', 'where': 'simphox/grid.py, simphox/mkl.py'}],
        'mechanism': [{'name': 'loop', 'where': 'simphox/opt.py opt_run'}],
        'observe_at': ['opt_run, FDFD.solve, sim.eps'],
        'hook_needed': None},
}
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'RuntimeError': RuntimeError}


def setup():
    import simphox.opt, simphox.fdfd, simphox.mkl  # noqa


def gen(rng, tier):
    sims = draw_sims(rng)
    problems = draw_problems(rng, sims)
    if not any(p['kind'] == 'sim' for p in problems):
        problems[0]['kind'] = 'sim'
    ops = []
    n = len(problems)
    for _ in range(rng.randrange(2, 5)):
        k = rng.weighted([('abort', 5), ('run', 1), ('solve', 1.5), ('edit', 1), ('renew', 1)])
        ops.append({'op': k, **draw_run(rng, problems, k == 'abort'), 'order': rng.sample(range(n), rng.randrange(1, n + 1)),
                    'sim': rng.randrange(len(sims))})
    for o in ops:
        if o['op'] == 'abort':
            o['iters'] = max(2, o['iters'])
            if o['fault']['kind'] == 'pipe':
                o['viz'], o['single'] = 1, False
            if o['fault']['kind'] == 'metrics':
                o['metric'] = 1
    ops.append({'op': 'run', **draw_run(rng, problems, False), 'order': list(range(n)), 'sim': 0})
    ops[-1]['iters'] = max(2, ops[-1]['iters'])
    return {'config': {'sims': sims, 'problems': problems}, 'ops': ops}


def run(plan, ctx):
    from ..seams import Interrupter
    from simphox.opt import OptProblem
    import jax.numpy as jnp
    s = Session(plan, ctx)
    if not s.ok:
        ctx.log('no guided mode')
        return
    history = []
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k = op['op']
        g = nprng(op['seed'])
        if k == 'abort' and op.get('fault'):
            f = op['fault']
            before = [np.array(x.eps) for x in s.sims]
            count = {'n': 0}
            exc = EXC[f['exc']]

            def bomb(*_):
                count['n'] += 1
                if count['n'] > f['at']:
                    raise exc('injected')

            def bar(j):
                if j >= f['at']:
                    raise exc('injected')
            it = Interrupter(f['line'] if f['kind'] == 'line' else None, exc)
            s.hooks = {'metrics': bomb if f['kind'] == 'metrics' else None, 'cost': bomb if f['kind'] == 'cost' and not f['at'] else None}
            nat = {'kind': 'raise', 'exc': 'MemoryError'} if f['line'] % 3 == 0 else \
                {'kind': 'error', 'code': -4} if f['line'] % 3 == 1 else {'kind': 'pivots', 'code': 2, 'seed': 5}
            if f['kind'] == 'native':
                s.S.native_faults = [{**nat, 'skip': f['line'] % 5}]
            hit = True
            init = s.start(op)
            try:
                with it:
                    s.go({**op, 'fault': None}, pipe_hook=bomb if f['kind'] == 'pipe' else None,
                         bar_hook=bar if f['kind'] == 'pbar' else None)
                hit = False
            except exc:
                pass
            except Exception:  # noqa: failures inside of compiled functions arrive wrapped
                if f['kind'] not in ('native', 'line'):
                    raise
            finally:
                left = list(s.S.native_faults)
                s.S.native_faults = []
                s.hooks = {'metrics': None, 'cost': None}
            fired = {'line': it.fired, 'native': f['kind'] == 'native' and not left, 'pbar': f['at'] < op['iters'],
                     'metrics': count['n'] > f['at'], 'cost': count['n'] > f['at'], 'pipe': count['n'] > f['at']}[f['kind']]
            ctx.check(hit == bool(fired), 'error-swallowed', f'a failure ({f["kind"]}) of run {i} did not reach the caller'
                      if fired else 'an unexpected failure')
            if fired:
                ctx.fault({'line': 'interrupt', 'native': 'native failure', 'pbar': 'progress bar fails', 'metrics': 'metric fails',
                           'cost': 'cost fails', 'pipe': 'pipe fails'}[f['kind']])
            # the permittivity is that of one of the iterations
            from .optsim import reference
            problems = [s.problems[j] for j in op['order']]
            hist, final, tfs, sound = reference(problems, s.rsims, s.bases, init, op['iters'], op['step'])
            if sound:
                for j, sim in enumerate(s.sims):
                    mine = [(p, tf) for p, tf in zip(problems, tfs) if p['kind'] != 'plain' and p['sim'] == j]
                    cands = [before[j]] + [np.asarray(tf(x)) for p, tf in mine for x in [h[0] for h in hist] + [final]]
                    err = min(float(np.max(np.abs(sim.eps - c))) if np.shape(sim.eps) == np.shape(c) else np.inf for c in cands)
                    ctx.check(err < 1e-3, 'torn-permittivity',
                              f'after {f["kind"]} the permittivity of simulation {j} is not that of any iteration (off by {err:.3g})')
            history.append(f['kind'] if fired else 'full')
            ctx.log('abort', f['kind'], bool(fired), f['at'])
        elif k == 'run' or k == 'abort':
            op = {**op, 'fault': None}
            rec, log, viz = s.go(op)
            s.check_run(op, rec, log, viz, f'run {i} after {history}')
            ctx.log('run', op['iters'], sig(rec.costs, 3), sig(rec.params, 3))
            history.append('run')
        elif k == 'solve':
            j = op['sim'] % len(s.sims)
            sim = s.sims[j]
            src = np.zeros(SHAPE, complex)
            src[tuple(g.randint(2, 9, 2))] = 1
            RefGrid(SIZE, D, np.array(sim.eps), s.rsims[j].wl).check_fields(ctx, sim.solve(src), src, 'tm', 'wrong-fields',
                                                                            tol=1e-8, msg=f'direct solve after {history}')
            ctx.log('solve')
        elif k == 'edit':
            j = op['sim'] % len(s.sims)
            s.sims[j].eps = s.sims[j].eps + g.uniform(0, 1, SHAPE)
            history.append('edit')
            ctx.log('edit')
        elif k == 'renew':   # new problems on the same simulations, at their own permittivity
            for j, sim in enumerate(s.sims):
                sim.eps = s.bases[j].copy()
            s.ops = [s.problem(p, jnp, OptProblem) for p in s.problems]
            history.append('renew')
            ctx.log('renew')
        ctx.state(history[-2:], k)
    ctx.check(not s.S.misuse, 'native-misuse', lambda: '; '.join(s.S.misuse))
