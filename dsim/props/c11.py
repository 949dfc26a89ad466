"""C11: energy, charge, reversibility and absorption of the FDTD."""
import numpy as np

from ..core import nprng, sig
from ..ref import RefGrid
from .tdsim import World, draw_world

ID = 'C11'
TITLE = 'FDTD conserves energy in closed domains and PML absorbs in open ones'
LEVEL = 'exploration'
RUNS = {'quick': 170, 'thorough': 9000}
TIME_UNIT = 'FDTD time (1/c, in units of the grid)'
NOTE = 'Seeded search over structures, source schedules, kicks and reversals; not exhaustive.'
RULE = ('closed worlds (2D and 3D, no PML): sources switched on and off, fields kicked and time reversed at drawn steps, '
        'with the discrete balances checked at every step; open worlds (2D and 3D with PML): a pulse at a drawn place, then '
        'silence, compared with a much larger domain and for decay within a bounded number of steps.')
STATE = 'hash of (kind of world, operation, step)'
REAL = ['simphox.fdtd', 'simphox.sim', 'simphox.grid', 'simphox.utils', 'JAX', 'numpy']
STUB = []
ASSUMES = ['absorption: PML of 5 to 10 cells with the documented default parameters (or (4, -16, 1)), pulses resolved by the grid',
           'periodic boundaries without PML']
PROPERTY = {
    'statement': 'Without PML, at every step and for every history of sources and kicks, the discrete energy changes by '
                 'exactly the work of the sources (so it is conserved while they are off), the discrete divergences of '
                 'eps E and H change only through the sources, TE and TM fields of a 2D domain do not mix, and reversing '
                 'the magnetic field at any step retraces the run. With PML, outgoing pulses '
                 'leave: reflections stay below 10% of the pulse and, once the sources stop, the energy falls below 0.1% of its '
                 'peak within a bounded number of steps and does not come back.',
    'quantifier': {'over': ['histories', 'inputs', 'schedules'],
                   'text': 'all structures, source schedules and times at which sources stop, fields are kicked or time is reversed; all later steps'},
    'why_tests_cant': 'Conservation and absorption are about whole histories: small errors in an update grow or decay over '
                      'hundreds of steps. No test steps the FDTD.',
    'anchors': {
        'files': ['simphox/fdtd.py', 'simphox/utils.py', 'simphox/grid.py'],
        'state': [{'name': 'state', 'meaning': 'e, h and the PML auxiliary fields', 'where': 'simphox/fdtd.py FDTD.step'}],
        'mechanism': [{'name': 'updates', 'where': 'simphox/fdtd.py _step_e, _step_h'},
                      {'name': 'PML', 'where': 'simphox/fdtd.py _set_pml, simphox/utils.py pml_sigma, curl_pml_fn'}],
        'observe_at': ['FDTD.step'],
        'hook_needed': None},
}


def setup():
    import simphox.fdtd  # noqa


def gen(rng, tier):
    kind = rng.weighted([('closed', 3), ('open', 1), ('open3', .15)])
    if kind == 'closed':
        w = draw_world(rng, pml=False, steps=(10, 60))
        if w['jax']:
            w['steps'] = min(w['steps'], 24)
        w['on'] = 0
        ops, left = [], w['steps']
        while left > 0:
            n = rng.randrange(1, 12)
            ops.append({'op': rng.weighted([('quiet', 3), ('drive', 3), ('kick', 2), ('reverse', 1.5)]), 'n': n,
                        'seed': rng.seed32()})
            left -= n
        return {'config': {'kind': kind, 'world': w, 'pol': rng.choice(['tm', 'te', None])}, 'ops': ops}
    n, t = rng.choice([(30, 5), (30, 8), (36, 6), (40, 10)])
    if kind == 'open3':
        n, t = 18, 5
    ops = [{'op': 'pulse', 'at': [rng.randrange(t + 3, n - t - 3) for _ in range(2 if kind == 'open' else 3)],
            'what': rng.choice(['e', 'h']), 'amp': round(rng.uniform(.5, 2), 2), 'delay': rng.randrange(0, 12)}
           for _ in range(rng.randrange(1, 4))]
    return {'config': {'kind': kind, 'n': n, 't': t, 'eps': rng.choice([1., 1., 2.25]), 'd': rng.choice([.1, .05]),
                       'params': rng.choice([None, None, [4, -16, 1.0]]), 'wide': rng.choice([6, 7, 8]),
                       'jax': kind == 'open' and rng.chance(.12), 'block': rng.chance(.4), 'seed': rng.seed32()}, 'ops': ops}


def run(plan, ctx):
    (closed if plan['config']['kind'] == 'closed' else opened)(plan, ctx)


def closed(plan, ctx):
    import jax.numpy as jnp
    cfg = plan['config']
    world = World({**cfg['world'], 'edits': False})
    jax = world.w['jax']
    f = jnp.array if jax else np.array
    eps = world.eps(0)
    sim = world.make(jax)
    grid = RefGrid(world.size, world.spacing, eps)
    et = grid.eps_t()
    dt = 1 / np.sqrt(np.sum(1 / world.spacing ** 2))
    pol = cfg['pol'] if world.nd == 2 else None
    own = {'tm': [[1, 1, 0], [0, 0, 1]], 'te': [[0, 0, 1], [1, 1, 0]], None: [[1] * 3, [1] * 3]}[pol]
    own = [np.array(o).reshape(3, 1, 1, 1) for o in own]
    g0 = nprng(cfg['world']['seed'] + 5)

    def rand(g, q):
        return (g.standard_normal((3,) + world.shape3) + 1j * g.standard_normal((3,) + world.shape3)) * own[q]

    def div(v, d):
        return d(v[0], 0) + d(v[1], 1) + (d(v[2], 2) if world.nd == 3 else 0)
    state = sim.zero_state
    state = (f(rand(g0, 0)), f(rand(g0, 1))) + tuple(state[2:])
    prev_h, prev_m = None, 0   # h half a step before the current e, if it belongs to this history
    t = 0

    def one(j=None, m=None, regions=None, msg=''):
        """One step with all balances; j and m are full arrays of the sources."""
        nonlocal state, prev_h, prev_m, t
        e0, h0 = np.array(state[0]), np.array(state[1])
        state = sim.step(state, regions or [])
        e1, h1 = np.asarray(state[0]), np.asarray(state[1])
        t += 1
        ctx.steps += 1
        ctx.sim_time += dt
        ctx.check(e1.shape == e0.shape == (3,) + world.shape3 and h1.shape == h0.shape, 'field-shape', msg)
        j = np.zeros_like(e0) if j is None else j
        m = np.zeros_like(e0) if m is None else m
        u_scale = float(np.sum(et * np.abs(e1) ** 2) + np.sum(np.abs(h1) ** 2) + np.sum(et * np.abs(e0) ** 2)
                        + np.sum(np.abs(h0) ** 2)) + 1e-12
        if prev_h is not None:
            u0 = np.real(np.sum(et * np.abs(e0) ** 2) + np.sum(prev_h.conj() * h0))
            u1 = np.real(np.sum(et * np.abs(e1) ** 2) + np.sum(h0.conj() * h1))
            work = -dt * np.real(np.sum((e1 + e0).conj() * j) + np.sum(h0.conj() * (m + prev_m)))
            ctx.close(u1 - u0, work, 'energy-balance', tol=1e-10, scale=u_scale, msg=f'{msg}: energy in step {t}')
        fs = float(np.max(np.abs(e1)) + np.max(np.abs(h1)) + np.max(np.abs(e0))) / np.min(world.spacing) * np.max(et)
        ctx.close(div(et * (e1 - e0) + dt * j, grid.bwd), 0 * e0[0], 'charge-balance', tol=1e-11, scale=fs, msg=f'{msg} step {t}')
        ctx.close(div(h1 - h0 + dt * m, grid.fwd), 0 * e0[0], 'magnetic-charge', tol=1e-11, scale=fs, msg=f'{msg} step {t}')
        ctx.check(not np.any(e1 * (1 - own[0])) and not np.any(h1 * (1 - own[1])), 'polarizations-mix', f'{msg} step {t}')
        prev_h, prev_m = h0, m

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        g = nprng(op['seed'])
        k, n = op['op'], op['n']
        if k == 'drive':
            srcs = World({**world.w, 'seed': op['seed'], 'edits': False}).sources
            ctx.fault('sources switched')
            for q in range(n):
                regions, j, m = [], np.zeros((3,) + world.shape3, complex), np.zeros((3,) + world.shape3, complex)
                for je, jh, region, om in srcs:
                    for x, full, w in ((je, j, 0), (jh, m, 1)):
                        if x is None:
                            continue
                        part = np.zeros_like(full)
                        part[region] = x * np.exp(1j * om * q)
                        part *= own[w]
                        full += part
                        v = part[region]
                        regions.append((v, None, region) if w == 0 else (None, v, region))
                one(j, m, regions, k)
        elif k == 'kick':
            ctx.fault('fields kicked')
            state = (f(np.array(state[0]) + rand(g, 0)), f(np.array(state[1]) + rand(g, 1))) + tuple(state[2:])
            prev_h = None
            for _ in range(n):
                one(msg=k)
        elif k == 'reverse':
            # run forward, reverse the magnetic field, and retrace
            n = min(n, 8)
            trace = []
            prev_h, prev_m = None, 0
            for _ in range(n):
                trace.append((np.array(state[0]), np.array(state[1])))
                one(msg=k)
            ctx.fault('time reversed')
            big = max(float(np.max(np.abs(x))) for a in trace for x in a)
            state = (state[0], f(-trace[-1][1])) + tuple(state[2:])
            prev_h, prev_m = None, 0
            for back in range(n):
                if back:
                    ctx.close(np.asarray(state[1]), -trace[n - 1 - back][1], 'not-reversible', tol=1e-10, scale=big, msg='h')
                one(msg='reversed')
                ctx.close(np.asarray(state[0]), trace[n - 1 - back][0], 'not-reversible', tol=1e-10, scale=big, msg='e')
            prev_h, prev_m = None, 0
        else:
            for _ in range(n):
                one(msg=k)
        ctx.log(k, t, sig(state[0]), sig(state[1]))
        ctx.state(cfg['kind'], k, t, world.nd, jax)


def opened(plan, ctx):
    from simphox.fdtd import FDTD
    cfg = plan['config']
    nd = 3 if cfg['kind'] == 'open3' else 2
    n, t, d = cfg['n'], cfg['t'], cfg['d']
    kw = {'pml_params': tuple(cfg['params'])} if cfg['params'] else {}
    eps = np.full((n,) * nd, cfg['eps'])
    g = nprng(cfg['seed'])
    if cfg['block']:
        lo = [int(g.randint(t + 1, n - t - 4)) for _ in range(nd)]
        eps[tuple(slice(a, a + 3) for a in lo)] = cfg['eps'] * 2
    pad = 28 if nd == 2 else 12
    nb = n + 2 * pad
    eb = np.full((nb,) * nd, cfg['eps'])
    eb[(slice(pad, pad + n),) * nd] = eps
    sim = FDTD((n * d,) * nd, d, eps=eps, pml=(t + .2) * d, use_jax=cfg['jax'], **kw)
    big = FDTD((nb * d,) * nd, d, eps=eb, use_jax=False)
    et = RefGrid((n * d,) * nd, d, eps).eps_t()
    dt = d / np.sqrt(nd)
    zs, zb = sim.zero_state, big.zero_state
    wide = cfg['wide']
    inner = (slice(None),) + (slice(t, n - t),) * nd
    inner_b = (slice(None),) + (slice(t + pad, n - t + pad),) * nd
    off = 6 * wide + 12
    n_idx = np.sqrt(cfg['eps'])
    end = int(off + 5 * n * np.sqrt(nd) * n_idx)
    if cfg['jax']:
        end = min(end, 150) if cfg['eps'] == 1 else 0
    peak, ref_peak, worst = 0., 0., 0.
    ctx.fault('pulse', len(plan['ops']))

    def src(step, shift):
        out = []
        for op in plan['ops']:
            x = (step - op['delay'] - 3 * wide) / wide
            a = np.array(op['amp'] * x * np.exp(-x ** 2)) if abs(x) < 3 else None
            if a is None:
                continue
            at = tuple(v + shift for v in op['at']) + (0,) * (3 - nd)
            # current loops and magnetic currents along z leave no static charges behind in 2D
            out.append((a, None, (2,) + at) if op['what'] == 'e' and nd == 2 else (None, a, (2,) + at))
            if nd == 3:  # a closed loop of electric current around a cell
                x0, y0, z0 = at
                out = out[:-1] + [(a, None, (0, x0, y0, z0)), (-a, None, (0, x0, y0 + 1, z0)),
                                  (a, None, (1, x0 + 1, y0, z0)), (-a, None, (1, x0, y0, z0))]
        return out
    ens = []
    for step in range(end):
        zs = sim.step(zs, src(step, 0))
        e, h = np.asarray(zs[0]), np.asarray(zs[1])
        en = float(np.sum(et * np.abs(e) ** 2) + np.sum(np.abs(h) ** 2))
        ctx.check(np.isfinite(en), 'diverged', f'step {step}')
        peak = max(peak, en)
        ens.append(en)
        if step < 2 * wide + pad * 1.2 + 12:
            zb = big.step(zb, src(step, pad))
            for q, x in ((0, e), (1, h)):
                want = np.asarray(zb[q])[inner_b]
                worst = max(worst, float(np.max(np.abs(x[inner] - want))))
                ref_peak = max(ref_peak, float(np.max(np.abs(want))))
        ctx.steps += 1
        ctx.sim_time += dt
    if not end:
        return
    ctx.log('open', sig(zs[0]), f'{worst / max(ref_peak, 1e-300):.4g}', f'{ens[-1] / peak:.4g}')
    ctx.check(worst <= .1 * ref_peak, 'reflection', f'PML reflects {worst / max(ref_peak, 1e-300):.3g} of the pulse (allowed 0.1)')
    ctx.max_err = max(ctx.max_err, worst / (.1 * ref_peak))
    r = max(ens[-max(3, n // 2):]) / peak
    ctx.check(r <= 1e-3, 'not-absorbed', f'{r:.3g} of the peak energy is left {end - off} steps after the sources stopped')
    ctx.max_err = max(ctx.max_err, r / 1e-3)
    ctx.state(cfg['kind'], cfg['n'], cfg['t'], cfg['eps'], [o['what'] for o in plan['ops']])
