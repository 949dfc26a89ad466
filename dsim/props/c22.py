"""C22: threads that compute different things at the same time do not disturb each other."""
import numpy as np

from ..core import nprng
from ..sched import Scheduler
from ..seams import S
from . import c21

ID = 'C22'
TITLE = 'Threads computing different things at once each get their own result'
LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 9000}
NOTE = ('Seeded search over thread schedules with switches at any executed line of simphox, around native calls and at lock operations; '
        'computations with JAX and those that use the random generator of the process are left out.')
RULE = ('2-4 threads with 1-4 computations each on objects of their own (solves, modes, sources, measurements, time steps, mesh '
        'synthesis and programming, structures, formulas) or on objects that all threads share and nobody edits, under 0-300 forced switches; '
        'some computations fail in the native solver or are interrupted at a drawn line.')
STATE = 'hash of the sequence of (thread, computation) completions'
REAL = ['all of simphox (NumPy backends)', 'SciPy', 'Intel MKL Pardiso']
STUB = ['thread scheduling (simulated, one thread at a time)', 'locks of simphox (real exclusion, simulated waiting)', 'ARPACK start vector (seeded)']
ASSUMES = ['preemption happens at line boundaries of simphox code and around native calls', 'objects that threads share are not edited meanwhile']
TIME_UNIT = 'scheduler steps'
PROPERTY = {
    'statement': 'Threads may compute at the same time: on simulations, mode solvers, time-domain simulations, grids, meshes and '
                 'nodes of their own, or on ones they share while nobody edits them (solving, modes, port sources, measurements, operators, '
                 'time steps of different states, mesh matrices and propagation, masks). Under every schedule each computation gives the '
                 'result it gives alone, its inputs are unchanged, and a computation that fails or is interrupted fails only its own '
                 'thread; afterwards the shared objects still give the right results, and no thread waits forever.',
    'quantifier': {'over': ['schedules', 'fault_sequences', 'histories'], 'text': 'all interleavings of the computations of several threads, with failures'},
    'why_tests_cant': 'The tests have one thread. Scratch arrays, caches and values set for the time of a call only mix up when '
                      'another thread runs between two lines.',
    'anchors': {
        'files': ['simphox/mkl.py', 'simphox/sim.py', 'simphox/mode.py', 'simphox/fdfd.py', 'simphox/fdtd.py', 'simphox/grid.py', 'simphox/circuit/forward.py',
                  'simphox/circuit/vector.py', 'simphox/circuit/rectangular.py', 'simphox/circuit/matrix.py'],
        'state': [{'name': 'mode cache', 'meaning': 'modes of a simulation, filled by whoever asks first', 'where': 'simphox/sim.py SimGrid.modes'},
                  {'name': 'process-wide solver', 'meaning': 'solve in progress', 'where': 'simphox/mkl.py Pardiso'}],
        'mechanism': [{'name': 'module-level and per-object state', 'where': 'simphox (all modules)'}],
        'observe_at': ['results and exceptions of each thread'],
        'hook_needed': None},
}


def setup():
    c21.setup()


# ---------------------------------------------------------------- computations on own objects (besides those of C21)

def own_mesh(p):
    from simphox.circuit import rectangular, tree_cascade, triangular
    n = [3, 4, 5][p['s']]
    u = c21.target(p, n)
    mk = [rectangular, triangular, tree_cascade][p['pml']]
    m = mk(u)
    r = nprng(p['v'] + 1)
    q = tuple(c21.given(r.uniform(0, 6, np.shape(a))) for a in m.params)
    out = [('matrix', m.matrix(), 1.), ('other', m.matrix(q), 1.), ('propagated', m.propagate(c21.rnd(p, n)), 1.), ('backward', m.matrix(q, back=True), 1.)]
    if p['pml']:
        dev = mk(c21.target({'v': p['v'] + 50}, n))
        dev.add_error_mean(.01 * p['d'])
        dev.program_by_null_basis(m.nullification_basis)
        out.append(('programmed', np.abs(dev.matrix()), 1.))
    return out


def own_vector(p):
    from simphox.circuit.vector import vector_unit
    v = c21.rnd(p, [3, 4, 6][p['s']])
    w = vector_unit(v, balanced=p['tm'], phase_style=['top', 'bottom'][p['d'] % 2])
    w = w[0] if isinstance(w, tuple) else w
    return [('matrix', w.matrix(), 1.), ('null', np.abs(w.matrix() @ v)[:-1], 1.), ('thetas', w.params[0], 1.)]


# ---------------------------------------------------------------- computations on objects which the threads share

PS = {'s': 0, 'd': 0, 'pml': 0, 'v': 3, 'wl': 1.31, 'tm': False, 'x': 0}


class Shared:
    """The objects of a run, made when first asked for and before the threads start."""

    def __init__(self, seed):
        from simphox.circuit import rectangular, tree_cascade, triangular
        from simphox.fdfd import FDFD
        from simphox.fdtd import FDTD
        from simphox.grid import YeeGrid
        from simphox.mode import ModeLibrary, ModeSolver
        from simphox.utils import Box
        np.random.seed(seed)
        S.eigs_seed, S.eigs_calls = 5, 0
        p = {**PS, 'v': seed % 5 + 1}
        self.fdfd, self.shape, _ = c21.make_fdfd(p, ports=True, wavelength=1.31)
        self.pml, _, _ = c21.make_fdfd({**p, 'pml': 1, 'd': seed % 3}, wavelength=1.31)
        self.td = c21.make_fdfd({**p, 'pml': 1 + seed % 2}, FDTD, use_jax=False)[0]
        g = nprng(seed)
        eps = g.uniform(1, 1.2, (9, 8))
        eps[2:6, 3:6] += 9
        self.solver = ModeSolver((.9, .8), .1, 1.31, eps=eps)
        self.lib = ModeLibrary(ModeSolver((.9, .8), .1, 1.31, eps=eps.copy()), 2)
        n = 4
        self.mesh = [rectangular, triangular, tree_cascade][seed % 3](c21.target(p, n))
        self.dev = triangular(c21.target({'v': seed % 7}, n))
        self.grid = YeeGrid((.9, .8), .1, eps=eps.copy())
        self.box = Box((.4, .3), min=(.2, .1), spacing=.1)
        del FDFD


def sh_solve(o, p):
    sim = o.pml if p['d'] else o.fdfd
    return [('fields', sim.solve(c21.rnd(p, *o.shape, 1), tm_2d=p['tm']))]


def sh_ports(o, p):
    pm = o.fdfd.port_modes(wavelength=[None, 1.31, 1.4][p['d']])
    out = [(f'beta {n}', np.array(pm[n].io.betas)) for n in sorted(pm)]
    return out + [(f'profile {n}', np.abs(pm[n].profile(0))) for n in sorted(pm)]


def sh_source(o, p):
    return [('source', np.abs(o.fdfd.port_source([{'a0': 1.}, {'b0': 1, 'a0': .5}, {('b0', 0): .5}][p['d']], wavelength=[None, 1.4, 1.2][p['s']])))]


def sh_measure(o, p):
    m = o.fdfd.get_measure_fn(wavelength=[None, 1.4, 1.2][p['s']])
    return [('measured', np.abs(np.asarray(m(c21.rnd(p, 2, 3, *o.shape, 1)))))]


def sh_modes(o, p):
    s = o.fdfd.modes((.5 + .1 * p['s'], .6, 0), (0, .9, 0), wavelength=p['wl'])
    return [('betas', s.io.betas), ('profile', np.abs(s.profile(0, use_h=p['tm'])))]


def sh_operators(o, p):
    sim = [o.fdfd, o.pml][p['d'] % 2]
    e = c21.rnd(p, 3, *o.shape, 1)
    return [('tm', sim.mat_hz.toarray()), ('te', sim.mat_ez.toarray()), ('eps_t', sim.eps_t), ('e2h', sim.e2h(e)), ('h2e', sim.h2e(e))]


def sh_step(o, p):
    st, src = o.td.zero_state, c21.rnd(p, 3)
    for i in range(6):
        st = o.td.step(st, [(src * np.exp(.4j * i * p['v']), None, (slice(None), 5 + p['s'], 6, 0))])
    return [('e', st[0]), ('h', st[1])]


def sh_solver(o, p):
    b, m = o.solver.solve(1 + p['s'], None if p['d'] else 4.)
    return [('betas', b)]


def sh_library(o, p):
    i = p['s'] % 2
    return [('h', np.abs(o.lib.h(i))), ('e', np.abs(o.lib.e(i))), ('poynting', o.lib.sz(i)), ('phase', o.lib.phase(2. + p['d'], i)), ('index', o.lib.ns)]


def sh_mesh(o, p):
    m = o.mesh
    r = nprng(p['v'] + 1)
    q = tuple(c21.given(r.uniform(0, 6, np.shape(a))) for a in m.params)
    x = c21.rnd(p, 4)
    return [('own', m.matrix(), 1.), ('given', m.matrix(q, back=p['tm']), 1.), ('propagated', m.propagate(x, back=p['d'] == 1), 1.),
            ('function', np.asarray(m.matrix_fn()(q, np.eye(4))) if p['s'] else 0, 1.)]


def sh_basis(o, p):
    return [('basis', np.abs(np.array(o.dev.nullification_basis)), 1.), ('matrix', o.dev.matrix(), 1.)]


def sh_grid(o, p):
    c = (.3 + .1 * p['s'], .4, 0)
    return [('mask', o.grid.mask(c, (.3, .2 + .1 * p['d'], 0)), 1.), ('eps', o.grid.eps), ('box', o.box.mask(o.grid.eps), 1.),
            ('derivative', o.grid.deriv_forward[p['s'] % 2].toarray()), ('averages', o.grid.eps_t), ('curl', o.grid.curl_fn(of_h=p['tm'])(c21.rnd(p, 3, 9, 8, 1)))]


SHARED = {k[3:]: v for k, v in list(globals().items()) if k.startswith('sh_')}
OWN = {**{k: c21.TASKS[k] for k in ('solve', 'solve3', 'modes', 'operators', 'fdtd', 'ports', 'constraints', 'formulas')}, 'own_mesh': own_mesh, 'own_vector': own_vector}
WEIGHT = {'constraints': .3, 'fdtd': .7}


def gen(rng, tier):
    n_threads = rng.choice([2, 2, 3, 4])
    pool = [('own', t) for t in rng.sample(sorted(OWN), rng.randrange(1, 5))] + [('shared', t) for t in rng.sample(sorted(SHARED), rng.randrange(1, 5))]
    contend = rng.chance(.6)   # all do nearly the same
    if contend:
        pool = [('shared', rng.choice(sorted(SHARED)))] if rng.chance(.7) else [('own', rng.choice(sorted(OWN)))]
        pool += rng.sample([('shared', t) for t in sorted(SHARED)], rng.choice([0, 0, 1]))
        n_threads = rng.choice([2, 2, 2, 3])
    ops = []
    for t in range(n_threads):
        for _ in range(rng.randrange(1, 3 if contend else 5)):
            kind, task = rng.weighted([(x, WEIGHT.get(x[1], 1)) for x in pool])
            op = {'thread': t, 'kind': kind, 'task': task, 'p': {'s': rng.randrange(3), 'd': rng.randrange(3), 'pml': rng.randrange(3), 'v': rng.randrange(1, 4),
                                                                  'wl': rng.choice([1.2, 1.31, 1.55]), 'tm': rng.chance(.5), 'x': rng.randrange(3)}}
            if task in ('fdtd', 'ports', 'constraints'):
                op['p']['tm'] = False   # without JAX
            if rng.chance(.12):
                op['fault'] = rng.choice([{'kind': 'native'}, {'kind': 'line', 'line': rng.randrange(1, 250), 'exc': rng.choice(['MemoryError', 'KeyboardInterrupt'])}])
            ops.append(op)
    points, step = [], rng.choice([0, 0, rng.randrange(1500)])
    style = rng.choice(['dense', 'dense', 'dense', 'sparse', 'mixed', 'bursts', 'bursts', 'none'])
    for i in range({'dense': 300, 'sparse': 60, 'mixed': 150, 'bursts': 120, 'none': 0}[style]):
        step += {'dense': rng.randrange(1, 10), 'sparse': rng.randrange(1, 300), 'mixed': rng.choice([1, 2, 3, rng.randrange(1, 120)]),
                 'bursts': rng.randrange(200, 900) if i % 9 == 0 else rng.randrange(1, 5)}[style]
        points.append([step, rng.randrange(4)])
    return {'config': {'seed': rng.seed32() % 1000, 'points': points}, 'ops': ops}


def compute(op, obj):
    raw = OWN[op['task']](op['p']) if op['kind'] == 'own' else SHARED[op['task']](obj, op['p'])
    return [(x[0], np.array(x[1]), None if len(x) < 3 else x[2]) for x in raw]


def run(plan, ctx):
    import sys
    cfg = plan['config']
    key = lambda op: f'{op["kind"]} {op["task"]} {sorted(op["p"].items())}'  # noqa

    distinct = {}
    for op in plan['ops']:
        distinct.setdefault(key(op), op)
    for o in sorted({op['task'] for op in plan['ops'] if op['kind'] == 'shared'}):
        for d in range(3):
            op = {'kind': 'shared', 'task': o, 'p': {**PS, 'd': d, 's': d}}
            distinct.setdefault(key(op), op)

    def alone(ops, _):   # one after the other, on new objects
        S.eigs_seed = 5
        return [compute(op, Shared(cfg['seed']) if op['kind'] == 'shared' else None) for op in ops], None, None
    r = c21.collect(*c21.alone(list(distinct.values()), alone))
    ctx.check(r[0] == 'ok', 'failed-alone', lambda: r[1])
    refs = dict(zip(distinct, r[1]))
    S.eigs_seed = 5
    obj = Shared(cfg['seed']) if any(op['kind'] == 'shared' for op in plan['ops']) else None
    c21.GIVEN.clear()
    n_threads = max([o['thread'] for o in plan['ops']] or [0]) + 1
    results, done = [], []
    sched = Scheduler(ctx, cfg['points'], max_steps=3000000)

    def body(t):
        for k, op in enumerate(plan['ops']):
            if op['thread'] != t:
                continue
            f = op.get('fault')
            sched.trace_again()
            if f and f['kind'] == 'native':
                S.thread_faults[t] = {'kind': 'error', 'code': -2}
            elif f:
                sched.kills[t] = [f['line'], {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}[f['exc']]]
            try:
                out = compute(op, obj)
            except BaseException as e:  # noqa
                from ..sched import Abort
                if isinstance(e, Abort) or not f:
                    raise
                done.append((t, k, 'failed'))
                continue
            finally:
                sched.kills.pop(t, None)
                S.thread_faults.pop(t, None)
            done.append((t, k, 'ok'))
            if not f:
                results.append((t, k, op, out))

    for t in range(n_threads):
        sched.spawn(f'thread-{t}', lambda t=t: body(t))
    S.thread_faults = {}
    sched.run()
    sys.settrace(None)
    ctx.sim_time = float(sched.step)
    ctx.state(tuple(done))
    for d in done:
        ctx.log('done', *d)
        if d[2] == 'failed':
            ctx.fault({'native': 'native failure', 'line': 'interrupt'}[plan['ops'][d[1]]['fault']['kind']])
    ctx.log('switches', len(sched.switches), 'steps', sched.step)
    ctx.check(sched.deadlock is None, 'deadlock', lambda: f'threads wait forever: {sched.deadlock}')
    ctx.check(not sched.overrun, 'no-progress', 'the threads do not finish')
    for t in sched.threads:
        if t['exc'] is not None:
            ctx.fail(f'unexpected-{type(t["exc"]).__name__}', f'{t["name"]}: {type(t["exc"]).__name__}: {str(t["exc"])[:300]}')

    def judge(op, out, tag, kind):
        want = refs[key(op)]
        ctx.check([x[0] for x in out] == [x[0] for x in want], kind, lambda: f'{tag}: {[x[0] for x in out]}')
        for (name, a, sc), (_, b, _) in zip(out, want):
            if a.dtype.kind in 'US' or name.startswith('must '):
                ctx.check(np.array_equal(a, b), kind, lambda: f'{tag}: {name} {a} alone {b}')
            else:
                ctx.close(a, b, kind, tol=1e-6, scale=sc if sc is not None else max(float(np.abs(b).max()), 1e-12) if b.size else 1, msg=f'{tag}: {name}')
    for t, k, op, out in results:
        judge(op, out, f'thread {t} op {k} {key(op)}', 'disturbed')
    ctx.check(all(np.array_equal(a, b) for a, b in c21.GIVEN), 'inputs-changed', 'a computation changed an array it was given')
    for op in distinct.values():   # the shared objects afterwards
        if op['kind'] == 'shared':
            judge(op, compute(op, obj), f'{key(op)} on the shared object afterwards', 'damaged')
    ctx.check(not S.misuse, 'native-misuse', lambda: '; '.join(S.misuse))
