"""C10: the FDTD computes the documented leapfrog updates, with either backend."""
import numpy as np

from ..core import nprng, sig
from ..ref import RefFDTD
from .tdsim import World, draw_world, host

ID = 'C10'
TITLE = 'FDTD fields follow the documented update equations'
LEVEL = 'exploration'
RUNS = {'quick': 170, 'thorough': 9000}
TIME_UNIT = 'FDTD time (1/c, in units of the grid)'
NOTE = 'Seeded search over grids, PML settings, source schedules and edits of the permittivity; not exhaustive.'
RULE = ('one world (2D or 3D, equal or unequal spacings, PML per axis with drawn parameters, numpy and JAX, 1-3 sources '
        'on points, lines, planes or volumes of E and/or H that are switched on and off) stepped beside a reference '
        'implementation, with edits of the permittivity and changes of the sources at drawn steps.')
STATE = 'hash of (operation, dimensions, PML, backend, step)'
REAL = ['simphox.fdtd', 'simphox.sim', 'simphox.grid', 'simphox.utils', 'JAX', 'numpy']
STUB = []
ASSUMES = ['source regions are at least two cells wide or given by integers along each axis (sources are squeezed)']
PROPERTY = {
    'statement': 'At every step and for every history of sources, source switching and permittivity edits, the fields of the '
                 'FDTD are those of the documented updates (Yee-averaged permittivity, periodic leapfrog curl updates at '
                 'the Courant time step, convolutional PML of the given thickness and parameters, -J and -M added in the '
                 'given regions where sources may overlap), whichever backend (numpy, JAX) is used; the response is linear '
                 'in the sources, and shifting all sources by some steps shifts the response.',
    'quantifier': {'over': ['inputs', 'histories', 'schedules'],
                   'text': 'all grids, spacings, PML settings, permittivities and edits of them, source regions and schedules, both backends'},
    'why_tests_cant': 'The updates are recurrent: an error in an auxiliary field, in one PML region or at an overlap of '
                      'sources shows only for particular histories; no test steps the FDTD against an independent model.',
    'anchors': {
        'files': ['simphox/fdtd.py', 'simphox/utils.py', 'simphox/grid.py'],
        'state': [{'name': 'state', 'meaning': 'e, h and the PML auxiliary fields', 'where': 'simphox/fdtd.py FDTD.step'}],
        'mechanism': [{'name': 'updates', 'where': 'simphox/fdtd.py _step_e, _step_h, curl_e_pml, curl_h_pml, _set_pml'},
                      {'name': 'differences', 'where': 'simphox/grid.py curl_fn, simphox/utils.py curl_pml_fn, pml_sigma, yee_avg'}],
        'observe_at': ['FDTD.step, FDTD.dt, FDTD.eps_t'],
        'hook_needed': None},
}


def setup():
    import simphox.fdtd  # noqa


def gen(rng, tier):
    w = draw_world(rng, steps=(5, 40))
    if w['jax']:
        w['steps'] = min(w['steps'], 16)
    ops = []
    left = w['steps']
    while left > 0:
        k = rng.weighted([('steps', 6), ('edit', 2), ('sources', 2), ('silence', 1), ('both', .8), ('scale', 1), ('shift', .7)])
        n = rng.randrange(1, 8)
        ops.append({'op': k, 'n': n, 'seed': rng.seed32()})
        left -= n
    return {'config': {'world': w, 'kick': rng.choice(['none', 'none', 'e', 'h', 'eh'])}, 'ops': ops}


def run(plan, ctx):
    import jax.numpy as jnp
    cfg = plan['config']
    world = World({**cfg['world'], 'edits': False})
    w = world.w
    jax = w['jax']
    eps = world.eps(0)
    sim = world.make(jax)
    ref = RefFDTD(world.size, world.spacing, eps, w['pml'], world.pml_params)
    ctx.close(float(sim.dt), ref.dt, 'wrong-time-step', tol=1e-12, msg='dt')
    state = sim.zero_state
    if cfg['kick'] != 'none':
        g = nprng(w['seed'] + 1)
        e, h = [(g.standard_normal((3,) + world.shape3) + 1j * g.standard_normal((3,) + world.shape3)) *
                (f in cfg['kick']) for f in 'eh']
        ref.e, ref.h = e.copy(), h.copy()
        f = jnp.array if jax else np.array
        state = (f(e), f(h)) + tuple(state[2:])
    t = 0
    big = [1e-9]
    srcs = world.sources

    def sources(step, scale=1.):
        if step >= w['on']:
            return []
        out = []
        for je, jh, region, om in srcs:
            ph = np.exp(1j * om * step) * scale
            out.append((None if je is None else je * ph, None if jh is None else jh * ph, region))
        return out

    def compare(st, msg):
        e, h = np.asarray(st[0]), np.asarray(st[1])
        big[0] = max(big[0], float(np.max(np.abs(ref.e))), float(np.max(np.abs(ref.h))))
        ctx.close(e, ref.e, 'wrong-fields', tol=1e-11, scale=big[0], msg=f'{msg}: e after {t} steps')
        ctx.close(h, ref.h, 'wrong-fields', tol=1e-11, scale=big[0], msg=f'{msg}: h after {t} steps')

    def advance(n, msg):
        nonlocal state, t
        for _ in range(n):
            s = sources(t)
            state = sim.step(state, s)
            ref.step(s)
            t += 1
            ctx.steps += 1
            ctx.sim_time += ref.dt
            compare(state, msg)

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        g = nprng(op['seed'])
        k, n = op['op'], op['n']
        if k == 'edit':
            eps = eps.copy()
            sl = tuple(slice(int(g.randint(m)), None) for m in world.shape)
            eps[sl] = g.uniform(1, 12)
            if op['seed'] % 2:
                sim.eps = eps.copy()
            else:
                sim.eps[sl] = eps[sl]
            old = ref.state()
            ref = RefFDTD(world.size, world.spacing, eps, w['pml'], world.pml_params)
            ref.load(old)
            ctx.close(np.asarray(sim.eps_t), ref.grid.eps_t(), 'wrong-permittivity', tol=1e-12, msg='eps_t')
            ctx.fault('permittivity edited mid-run')
        elif k == 'sources':
            srcs = World({**w, 'seed': op['seed'], 'edits': False}).sources
            w['on'] = t + n
            ctx.fault('sources replaced mid-run')
        elif k == 'silence':
            w['on'] = 0
        elif k == 'both':  # the same history with the other backend, from the same state
            o = world.make(not jax, eps=eps)
            f = np.array if jax else jnp.array
            hs = host(state)
            st = (f(hs[0]), f(hs[1])) + tuple(None if x is None else [f(y) for y in x] for x in hs[2:])
            keep = ref.state()
            for j in range(min(n, 3)):
                st = o.step(st, sources(t + j))
                ref.step(sources(t + j))
                compare(st, 'other backend')
            ref.load(keep)
        elif k == 'scale':  # linearity: the difference of two runs is the run of the difference
            a = 1.5 - 2j
            st0, st1, z = state, state, sim.zero_state
            for j in range(min(n, 4)):
                w2 = [(None if e is None else a * e, None if h is None else a * h, r) for e, h, r in sources(t + j)]
                st0 = sim.step(st0, [])
                st1 = sim.step(st1, w2 + sources(t + j))
                z = sim.step(z, sources(t + j))
            s = max(1., float(np.max(np.abs(np.asarray(st1[0])))), float(np.max(np.abs(np.asarray(st1[1])))))
            for q in (0, 1):
                ctx.close(np.asarray(st1[q]), np.asarray(st0[q]) + (1 + a) * np.asarray(z[q]), 'not-linear', tol=1e-11,
                          scale=s, msg='eh'[q])
        elif k == 'shift':
            z0, z1 = sim.zero_state, sim.zero_state
            for _ in range(2):
                z1 = sim.step(z1, [])
            for j in range(min(n, 4)):
                z0, z1 = sim.step(z0, sources(j)), sim.step(z1, sources(j))
            for q in (0, 1):
                ctx.close(np.asarray(z1[q]), np.asarray(z0[q]), 'not-shift-invariant', tol=1e-12, msg='eh'[q])
        advance(n, k)
        ctx.log(k, t, sig(ref.e), sig(state[0]))
        ctx.state(k, world.nd, w['pml'] is not None, jax, t)
