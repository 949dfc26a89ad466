"""C02: threads that use the solvers and simulations at the same time get the results they would get alone."""
import numpy as np
import scipy.sparse as sp

from .. import seams
from ..core import nprng, sig
from ..ref import RefGrid, backward_error
from ..sched import Scheduler
from .c01 import COMPLEX, base_matrix, relate

ID = 'C02'
TITLE = 'Concurrent solves do not disturb each other'
LEVEL = 'exploration'
RUNS = {'quick': 800, 'thorough': 6000}
NOTE = ('Seeded search over thread schedules: switches at any executed line of simphox, at the entry to and exit from '
        'the native solver (where the GIL is released) and at lock operations; not exhaustive.')
RULE = ('2-4 threads with 1-5 operations each under a seeded schedule of 0-60 forced switches at any executed line of '
        'simphox, native solver entry/exit or lock operation.')
STATE = 'hash of the sequence of (thread, operation) completions'
REAL = ['simphox.mkl', 'simphox.fdfd', 'simphox.sim', 'simphox.mode', 'simphox.fdtd (numpy)', 'Intel MKL Pardiso (native)']
STUB = ['thread scheduling (simulated, one thread at a time)', 'the locks simphox creates (real exclusion, simulated waiting)',
        'native call proxy, which injects failures and reports what the real library would not']
ASSUMES = ['preemption happens at line boundaries of simphox code and around native calls',
           'the native library itself is safe for different handles']
TIME_UNIT = 'scheduler steps'
PROPERTY = {
    'statement': 'Threads that solve linear systems or run simulations at the same time, on one shared solver or '
                 'simulation or on their own, each get the result they would have got alone, under every schedule. No '
                 'two threads are ever inside the native solver with the same factorization, a failing solve fails only '
                 'its own thread, and no thread waits forever.',
    'quantifier': {'over': ['schedules', 'fault_sequences', 'histories'],
                   'text': 'all interleavings of the operations of several threads, with failures of single native calls'},
    'why_tests_cant': 'The tests are single threaded, while the native solver is one process-wide object, its calls '
                      'release the interpreter lock and JAX callbacks run on other threads.',
    'anchors': {
        'files': ['simphox/mkl.py', 'simphox/fdfd.py', 'simphox/sim.py'],
        'state': [{'name': 'process-wide solver', 'meaning': 'factors, right-hand side and phase of the solve in progress',
                   'where': 'simphox/mkl.py Pardiso'}],
        'mechanism': [{'name': 'serialization of the calls into a solver', 'where': 'simphox/mkl.py Pardiso'}],
        'observe_at': ['results and exceptions of each thread', 'native call boundary'],
        'hook_needed': None},
}


def setup():
    import simphox.fdfd, simphox.fdtd, simphox.mkl  # noqa


def gen(rng, tier):
    n_threads = rng.choice([2, 2, 3, 4])
    owns = [rng.choice([13, 13, 11, 6, -2]) for _ in range(rng.randrange(0, 2))]
    mats = [{'n': rng.choice([3, 5, 8, 20, 60, 300]), 'seed': rng.seed32(), 'density': rng.choice([2, 5])}]
    mats.append({**mats[0], 'n': mats[0]['n'] if rng.chance(.6) else rng.choice([4, 9, 40])})
    ops = []
    heavy = rng.chance(.35)
    for t in range(n_threads):
        for _ in range(rng.randrange(1, 5)):
            k = rng.weighted([('solve', 10), ('factor', 1), ('singular', .7)] +
                             ([('fdfd', 4), ('edit', 1), ('source', 1), ('fdtd', .7)] if heavy else []))
            op = {'thread': t, 'op': k, 'seed': rng.seed32()}
            if k in ('solve', 'factor', 'singular'):
                op['inst'] = rng.randrange(len(owns) + 1) if k != 'factor' else (1 if owns else 0)
                op['mat'] = rng.randrange(2)
                op['rel'] = rng.choice(['same-object', 'equal-copy', 'tweak', 'transpose', 'negate-one', 'scale', 'other'])
            if k == 'solve' and rng.chance(.06):
                op['fault'] = rng.choice([{'kind': 'raise', 'exc': 'MemoryError'},
                                          {'kind': 'error', 'code': rng.choice([-2, -4, -9])},
                                          {'kind': 'error-late', 'code': -2, 'seed': 3}])
            if k == 'fdfd':
                op.update(sim=rng.choice(['own', 'shared']), pol=rng.choice(['tm', 'te']))
            ops.append(op)
    points, step = [], 0
    style = rng.choice(['dense', 'sparse', 'mixed', 'none'])
    for _ in range({'dense': 60, 'sparse': 12, 'mixed': 30, 'none': 0}[style]):
        step += {'dense': rng.randrange(1, 6), 'sparse': rng.randrange(1, 200),
                 'mixed': rng.choice([1, 2, 3, rng.randrange(1, 60)])}.get(style, 1)
        points.append([step, rng.randrange(4)])
    return {'config': {'owns': owns, 'mats': mats, 'eps': rng.seed32(), 'points': points}, 'ops': ops}


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    from simphox.mkl import Pardiso, spsolve_pardiso
    from ..seams import S
    cfg = plan['config']
    g0 = nprng(cfg['eps'])
    insts = [(13, None)] + [(m, Pardiso(m)) for m in cfg['owns']]
    shape, size, d = (20, 16), (2., 1.6), .1

    def new_eps(g):
        e = 1 + 3 * (g.uniform(0, 1, shape) > .6)
        e[:, 6:10] = 6
        return e * 1.
    heavy = any(o['op'] in ('fdfd', 'edit', 'source', 'fdtd') for o in plan['ops'])
    shared_eps = new_eps(g0)
    S.eigs_seed = 5
    if heavy:
        shared = FDFD(size, d, wavelength=1.4, eps=shared_eps)
        shared.port = {'a0': Port(.2, .8, 180, .4), 'b0': Port(1.8, .8, 0, .4)}
        want_src = shared.port_source({('b0', 0): 1})
        shared = FDFD(size, d, wavelength=1.4, eps=shared_eps)  # with nothing cached yet
        shared.port = {'a0': Port(.2, .8, 180, .4), 'b0': Port(1.8, .8, 0, .4)}
        td = FDTD((1., .8), .1, eps=2., use_jax=False)
        td_src = [(np.exp(.3j) * np.ones((3, 1, 4)), None, (slice(None), 4, slice(2, 6), 0))]
        st = td.zero_state
        for _ in range(4):
            st = td.step(st, td_src)
        want_td = st
    done = []
    n_threads = max([o['thread'] for o in plan['ops']] or [0]) + 1
    problems = []

    def body(t):
        mats, past = {}, {}
        own = own_eps = None
        for k, op in enumerate(plan['ops']):
            if op['thread'] != t:
                continue
            g = nprng(op['seed'])
            fault = op.get('fault')
            tag = f'thread {t} op {k} ({op["op"]})'
            if op['op'] in ('solve', 'factor', 'singular'):
                mtype, solver = insts[min(op['inst'], len(insts) - 1)]
                spec = cfg['mats'][op['mat']]
                key = (op['mat'], mtype)
                mat = base_matrix(spec, mtype) if key not in mats else relate(op['rel'], mats[key], spec, mtype, g)
                mats[key] = mat = sp.csr_matrix(mat)
                n = mat.shape[0]
                if op['op'] == 'factor':
                    if solver is not None:
                        solver.factor(mat)
                    done.append((t, k))
                    continue
                b = g.uniform(-1, 1, n) + (1j * g.uniform(-1, 1, n) if mtype in COMPLEX else 0)
                if op['op'] == 'singular':
                    z = np.ones(n)
                    z[g.randint(n)] = 0
                    bad = sp.csr_matrix(sp.diags(z) @ mat @ sp.diags(z)) if mtype in (13, 11) else mat * 0
                    try:
                        x = spsolve_pardiso(bad, b) if solver is None else solver.solve(bad, b)
                    except RuntimeError:
                        done.append((t, k, 'error'))
                        continue
                    if np.all(np.isfinite(x)):
                        be = backward_error(bad, np.asarray(x), b)
                        if be > 1e-6:
                            problems.append(('wrong-solution', f'{tag}: singular system, no error and residual {be:.3g}'))
                    done.append((t, k, 'result'))
                    continue
                if fault:
                    S.thread_faults[t] = dict(fault)
                try:
                    x = spsolve_pardiso(mat, b) if solver is None else solver.solve(mat, b)
                except (RuntimeError, MemoryError):
                    if not fault:
                        raise
                    done.append((t, k, 'error'))
                    continue
                finally:
                    unused = S.thread_faults.pop(t, None)
                if fault and unused is None:
                    problems.append(('error-swallowed', f'{tag}: the native solver failed but a result was returned'))
                be = backward_error(mat, np.asarray(x).ravel(), b) if np.asarray(x).size == n else np.inf
                if not be < 1e-9:
                    problems.append(('wrong-solution', f'{tag}: not the solution of the given system '
                                                       f'(relative residual {be:.3g})'))
                done.append((t, k))
            elif op['op'] == 'edit':
                own, own_eps = None, new_eps(g)
                done.append((t, k))
            elif op['op'] == 'fdfd':
                if op['sim'] == 'own':
                    if own is None:
                        own_eps = new_eps(nprng(cfg['eps'] + t + 1)) if own_eps is None else own_eps
                        own = FDFD(size, d, wavelength=1.3 + .1 * t, eps=own_eps, pml=(.5, .5))
                    sim, eps, wl, pml = own, own_eps, 1.3 + .1 * t, (.5, .5)
                else:
                    sim, eps, wl, pml = shared, shared_eps, 1.4, None
                src = np.zeros(shape, complex)
                src[g.randint(6, 14), g.randint(6, 10)] = 1
                f = sim.solve(src, tm_2d=op['pol'] == 'tm')
                results.append((tag, f, eps, wl, src, op['pol'], pml))
                done.append((t, k))
            elif op['op'] == 'source':
                got = shared.port_source({('b0', 0): 1})
                results.append((tag, got))
                done.append((t, k))
            elif op['op'] == 'fdtd':
                st = td.zero_state
                for _ in range(4):
                    st = td.step(st, td_src)
                results.append((tag, st[0], st[1]))
                done.append((t, k))

    results = []
    sched = Scheduler(ctx, cfg['points'])
    for t in range(n_threads):
        sched.spawn(f'thread-{t}', lambda t=t: body(t))
    S.thread_faults = {}
    sched.run()
    ctx.sim_time = float(sched.step)
    ctx.state(tuple(done))
    for dn in done:
        ctx.log('done', *dn)
    ctx.log('switches', len(sched.switches), 'steps', sched.step)
    ctx.check(sched.deadlock is None, 'deadlock', lambda: f'threads wait forever: {sched.deadlock}')
    ctx.check(not sched.overrun, 'no-progress', 'the threads do not finish')
    for t in sched.threads:
        if t['exc'] is not None:
            e = t['exc']
            ctx.fail(f'unexpected-{type(e).__name__}', f'{t["name"]}: {str(e)[:300]}')
    for key, msg in problems:
        ctx.fail(key, msg)
    ctx.checks += len(done)
    ctx.check(not S.misuse, 'native-misuse', lambda: '; '.join(S.misuse))
    for r in results:
        if len(r) == 7:
            tag, f, eps, wl, src, pol, pml = r
            RefGrid(size, d, eps, wl, pml).check_fields(ctx, f, src, pol, 'wrong-fields', msg=tag)
            ctx.log(tag, sig(f))
        elif len(r) == 3:
            ctx.close(r[1], want_td[0], 'wrong-fields', tol=1e-12, msg=r[0])
            ctx.close(r[2], want_td[1], 'wrong-fields', tol=1e-12, msg=r[0])
        else:
            ctx.close(r[1], want_src, 'wrong-source', tol=1e-5, msg=r[0])
    if heavy:
        ctx.same(shared.eps, shared_eps, 'input-modified', 'eps of the shared simulation')
