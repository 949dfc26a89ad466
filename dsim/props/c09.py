"""C09: stepping the FDTD is a pure function; a run can be stopped, branched and restarted from any state."""
import io

import numpy as np

from ..core import nprng, sig
from .tdsim import World, device, draw_world, host, leaves

ID = 'C09'
TITLE = 'FDTD runs restart and branch exactly from any saved state'
LEVEL = 'exploration'
RUNS = {'quick': 150, 'thorough': 8000}
TIME_UNIT = 'FDTD time (1/c, in units of the grid)'
NOTE = 'Seeded search over crash points, checkpoints, branches, interrupts and permittivity schedules; not exhaustive.'
RULE = ('one world (2D or 3D, with or without PML, numpy or JAX, equal or unequal spacings, sources with a schedule, '
        'permittivity edits with a schedule) run once uninterrupted, then through 6-20 operations: step, checkpoint to '
        'bytes, crash and restart in a new object (same or other backend), rewind, branch with other sources, interrupt '
        'or failing allocation at a drawn line, malformed sources, another simulation in between.')
STATE = 'hash of (operation, step, backend, PML, number of the restart)'
REAL = ['simphox.fdtd', 'simphox.sim', 'simphox.grid', 'simphox.utils', 'JAX', 'numpy']
STUB = ['storage of checkpoints (in-memory bytes; only they survive a crash)']
ASSUMES = ['the caller restores the permittivity when it rewinds a simulation', 'the state is (e, h, psi_e, psi_h), as documented']
PROPERTY = {
    'statement': 'FDTD.step is a function of the given state, the given sources and the current permittivity only, and it '
                 'leaves the given state, the sources and the permittivity untouched: saving the state after any step, '
                 'crashing (or being interrupted in the middle of a step, or failing on a malformed source) and '
                 'continuing from the saved state, in the same or a new simulation object with the same settings, '
                 'gives exactly the fields of the uninterrupted run (up to rounding with the other backend); rewinding '
                 'and branching from one state do not influence each other, nor do several simulations.',
    'quantifier': {'over': ['crash_points', 'histories', 'inputs', 'fault_sequences'],
                   'text': 'all steps at which a run is stopped, rewound, branched or interrupted, all source and permittivity schedules, both backends, with and without PML'},
    'why_tests_cant': 'No test steps the FDTD twice from one state; whether anything survives outside of the state shows '
                      'only when a run is stopped at some step and continued elsewhere.',
    'anchors': {
        'files': ['simphox/fdtd.py', 'simphox/utils.py', 'simphox/grid.py'],
        'state': [{'name': 'state', 'meaning': 'e, h, psi_e, psi_h', 'where': 'simphox/fdtd.py FDTD.zero_state, step'}],
        'mechanism': [{'name': 'E and H updates', 'where': 'simphox/fdtd.py _step_e, _step_h'},
                      {'name': 'PML auxiliary fields', 'where': 'simphox/utils.py curl_pml_fn'}],
        'observe_at': ['FDTD.step, FDTD.zero_state, FDTD.eps'],
        'hook_needed': None},
}


def setup():
    import simphox.fdtd  # noqa


def gen(rng, tier):
    w = draw_world(rng)
    if w['jax']:
        w['steps'] = min(w['steps'], 14)
    ops = []
    for _ in range(rng.randrange(6, 21)):
        k = rng.weighted([('steps', 5), ('save', 3), ('crash', 3), ('rewind', 2.5), ('branch', 2), ('interrupt', 3),
                          ('bad-source', 1), ('other', 1.5), ('zero', 1)])
        op = {'op': k, 'n': rng.randrange(1, 6), 'seed': rng.seed32(), 'pick': rng.randrange(1000)}
        if k == 'crash':
            op['same'] = rng.chance(.75)
        if k == 'interrupt':
            op['fault'] = {'line': rng.randrange(0, 70), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}
        ops.append(op)
    return {'config': {'world': w}, 'ops': ops}


def dump(st):
    f = io.BytesIO()
    np.savez(f, **{n: x for n, x in leaves(st)}, n=np.array(-1 if st[2] is None else len(st[2])))
    return f.getvalue()


def load(data):
    z = np.load(io.BytesIO(data))
    n = int(z['n'])
    return [z['e'], z['h'], None if n < 0 else [z[f'psi_e[{i}]'] for i in range(n)],
            None if n < 0 else [z[f'psi_h[{i}]'] for i in range(n)]]


def run(plan, ctx):
    from ..seams import Interrupter
    world = World(plan['config']['world'])
    w = world.w
    total = w['steps']

    # the uninterrupted run: from copies of everything
    jax = w['jax']
    sim = world.make(jax)
    traj = [host(sim.zero_state)]
    for name, x in leaves(traj[0]):
        ctx.check(not np.any(x), 'zero-state', lambda: f'{name} of the zero state is not zero')
    for k in range(total):
        sim.eps = world.eps(k)
        traj.append(host(sim.step(device(sim, traj[-1], jax), world.source(k))))
    ctx.check(np.all(np.isfinite(traj[-1][0])), 'diverged', 'fields are not finite')
    dt = float(sim.dt)
    scale = max(1e-9, max(np.max(np.abs(t[0])) for t in traj), max(np.max(np.abs(t[1])) for t in traj))
    exact = True   # same backend for everything since the start of this branch

    def same(got, want, msg, ex=True):
        names = [n for n, _ in leaves(want)]
        ctx.check([n for n, _ in leaves(got)] == names, 'state-structure', lambda: f'{msg} {[n for n, _ in leaves(got)]}')
        for (n, x), (_, y) in zip(leaves(got), leaves(want)):
            ctx.close(x, y, 'wrong-continuation', tol=1e-13 if ex else 1e-10, scale=scale, msg=f'{msg} {n}')

    state = sim.zero_state
    sim.eps = world.eps(0)
    step, cur_jax = 0, jax
    saved = {0: (dump(traj[0]), True)}  # and whether all of its steps were made with the backend of the world
    held = [(0, state, host(state), True)]  # states which the caller still holds
    restarts = 0

    def advance(n, msg):
        nonlocal state, step
        for _ in range(n):
            if step >= total:
                return
            src = world.source(step)
            copies = [(None if a is None else a.copy(), None if b is None else b.copy()) for a, b, _ in src]
            eps = world.eps(step)
            sim.eps = eps.copy()
            before = state
            h0 = host(before)
            state = sim.step(before, src)
            same(host(before), h0, f'{msg}: the given state after the step;')
            for (a, b, _), (ca, cb) in zip(src, copies):
                ctx.check(all(x is None or np.array_equal(x, y) for x, y in ((a, ca), (b, cb))), 'source-changed', msg)
            ctx.check(len(src) == len(copies), 'source-changed', msg)
            ctx.check(np.array_equal(sim.eps, eps), 'eps-changed', msg)
            step += 1
            ctx.sim_time += dt
            ctx.steps += 1
            same(host(state), traj[step], f'{msg}: step {step};', exact)

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        g = nprng(op['seed'])
        k = op['op']
        if k == 'steps':
            advance(op['n'], 'steps')
        elif k == 'save':
            saved[step] = (dump(host(state)), exact)
            held.append((step, state, host(state), exact))
            ctx.check(load(saved[step][0])[0].shape == traj[0][0].shape, 'state-structure', 'checkpoint')
        elif k == 'crash':  # everything in memory is gone
            at = sorted(saved)[op['pick'] % len(saved)]
            ctx.fault('crash and restart' + ('' if op['same'] else ' with the other backend'))
            cur_jax = jax if op['same'] else not jax
            exact = saved[at][1] and cur_jax == jax
            sim = world.make(cur_jax, eps=world.eps(at))
            state = device(sim, load(saved[at][0]), cur_jax)
            step, held = at, []
            restarts += 1
            same(host(state), traj[step], 'restored state;', exact)
            advance(op['n'], 'after the crash')
        elif k == 'rewind':
            s, st, want, ex = held[op['pick'] % len(held)] if held else (0, sim.zero_state, traj[0], cur_jax == jax)
            same(host(st), want, 'a state held by the caller;', True)
            state, step = st, s
            exact = ex
            ctx.fault('rewind')
            advance(op['n'], 'after rewinding')
        elif k == 'branch':
            s0, st0 = step, state
            b = state
            for j in range(op['n']):
                b = sim.step(b, world.source(j, scale=2.5) if w['on'] > j else [])
            ctx.check(len(b) == 4, 'state-structure', 'branch')
            state, step = st0, s0
            ctx.fault('branch abandoned')
            advance(1, 'after the branch')
        elif k == 'interrupt' and op.get('fault') and step < total:
            f = op['fault']
            exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']]
            want = host(state)
            sim.eps = world.eps(step)
            it = Interrupter(f['line'], exc)
            try:
                with it:
                    sim.step(state, world.source(step))
            except exc:
                ctx.fault('interrupt' if exc is KeyboardInterrupt else 'failing allocation')
            same(host(state), want, 'the state given to the interrupted step;')
            advance(op['n'], f'after the interrupt in {it.where}')
        elif k == 'bad-source':
            bad = [(np.ones(11), None, (0, slice(0, 4), 0, 0))]
            want = host(state)
            ctx.expect(lambda: sim.step(state, world.source(0) + bad), (ValueError, TypeError, IndexError),
                       'bad-source-accepted', 'a source of another shape than its region')
            ctx.fault('malformed source')
            same(host(state), want, 'the state given to the failed step;')
            advance(1, 'after the failed step')
        elif k == 'other':
            other = world.make(cur_jax, eps=g.uniform(1, 4, world.shape))
            b = other.zero_state
            for j in range(op['n']):
                b = other.step(b, world.source(j, scale=-1.))
                advance(1, 'with another simulation in between')
        elif k == 'zero':
            z = host(sim.zero_state)
            same(z, traj[0], 'zero state;')
            state, step, exact = sim.zero_state, 0, cur_jax == jax
            sim.eps = world.eps(0)
            advance(op['n'], 'from the zero state')
        ctx.log(k, step, int(cur_jax), sig(host(state)[0]))
        ctx.state(k, step, cur_jax, w['pml'] is not None, restarts)
    advance(total - step, 'to the end')
    for s, st, want, _ in held:
        same(host(st), want, f'the state held since step {s};')
