"""C21: what a computation gives does not depend on what else ran in the process, and the process is left as it was."""
import decimal
import gc
import logging
import os
import pickle
import random
import signal
import sys
import threading
import warnings

import numpy as np

from ..core import HarnessError, nprng, sig

ID = 'C21'
TITLE = 'Results do not depend on the session, and the process is left as it was'
LEVEL = 'exploration'
RUNS = {'quick': 48, 'thorough': 1000}
TIME_UNIT = 'computations'
NOTE = 'Seeded search over sessions of computations of all parts of the library; each is compared with itself in a process of its own.'
RULE = ('4-40 computations drawn from all parts of simphox, with parameters from small pools (so that they are alike), some '
        'repeated, some interrupted or failing, some with all arrays they gave or used overwritten afterwards, in one '
        'process; every computation also runs alone in a new process.')
STATE = 'hash of (consecutive computations, faults)'
REAL = ['all of simphox', 'JAX', 'haiku', 'SciPy', 'Intel MKL Pardiso']
STUB = ['ARPACK start vector (seeded)']
ASSUMES = ['computations which use random numbers are seeded by the user right before', 'results are compared up to rounding']
PROPERTY = {
    'statement': 'A computation (fields, modes, sources, S-parameters and their labels, gradients, time steps, optimizations, '
                 'constraints, mesh synthesis, errors, propagation, programming, in situ training, random matrices seeded by the user) gives the same '
                 'result, up to rounding, as in a new process, whatever other computations ran, failed or were interrupted before '
                 'in the session, and whatever happened to the arrays these gave or were given. No computation changes the '
                 'arrays it is given, reseeds the random generators, or leaves changes in the process: floating point error and printing settings, '
                 'warning filters, JAX configuration, environment variables, working directory, signal handlers, threads, garbage collection.',
    'quantifier': {'over': ['histories', 'inputs', 'fault_sequences'],
                   'text': 'all sequences of computations, complete, failing or interrupted, in one process'},
    'why_tests_cant': 'Tests share one process but never compare a result with that of another order; caches that outlive '
                      'their inputs, shared default values and changed settings only show in sessions that mix things.',
    'anchors': {
        'files': ['simphox/mkl.py', 'simphox/primitives.py', 'simphox/sim.py', 'simphox/grid.py', 'simphox/utils.py', 'simphox/fdtd.py', 'simphox/circuit/forward.py',
                  'simphox/circuit/matrix.py', 'simphox/circuit/vector.py', 'simphox/circuit/rectangular.py'],
        'state': [{'name': 'factorization of the process', 'meaning': 'last solved system', 'where': 'simphox/mkl.py pardiso'},
                  {'name': 'mode cache', 'meaning': 'modes by cross section', 'where': 'simphox/sim.py SimGrid.modes'}],
        'mechanism': [{'name': 'module-level state and caches', 'where': 'simphox (all modules)'}],
        'observe_at': ['results of the public functions and classes'],
        'hook_needed': None},
}


def setup():
    import haiku, jax, pandas, xarray  # noqa
    import jax.example_libraries.optimizers  # noqa
    import simphox.fdfd, simphox.fdtd, simphox.mkl, simphox.mode, simphox.opt, simphox.transform, simphox.viz  # noqa
    import simphox.circuit, simphox.circuit.rectangular, simphox.circuit.vector, simphox.circuit.matrix, simphox.circuit.envelope  # noqa


# ---------------------------------------------------------------- computations: p -> list of (name, array, scale or None)

def structure(g, shape, contrast=6.):
    e = g.uniform(1, 1.4, shape)
    m = shape[1] // 2
    e[:, m - 2:m + 2] += contrast
    e[shape[0] // 2 - 1:shape[0] // 2 + 2, m:] += g.uniform(1, 3)
    return e


def make_fdfd(p, cls=None, ports=False, **kw):
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    shape = [(16, 12), (12, 16), (16, 12)][p['s']]
    sp = [.1, .08, (.1, .07)][0 if ports else p['d']]
    d = np.ones(2) * sp
    pml = [None, tuple(4.2 * d), tuple(4.2 * d) if p['d'] == 2 else 4.2 * d[0]][0 if ports else p['pml']]
    eps = given(structure(nprng(p['v']), shape))
    if p['x'] == 1 and pml is not None:
        kw['pml_params'] = (3, -12, 1.2)
    elif p['x'] == 2 and not ports and cls is None:
        kw['bloch_phase'] = .4
    sim = (cls or FDFD)(tuple(round(n * q, 6) for n, q in zip(shape, d)), sp, eps=eps.copy() if ports else eps, pml=pml, **kw)
    if ports:
        y = shape[1] * .1 / 2
        sim.port = {'a0': Port(.3, y, 180, .3, 0, 0), 'b0': Port(shape[0] * .1 - .3, y, 0, .3, 0, 0)}
    return sim, shape, eps


GIVEN = []


def given(a):
    """An array which is handed to the library, and must be unchanged at the end of the computation."""
    GIVEN.append((a, a.copy()))
    return a


def rnd(p, *shape):
    g = nprng(p['v'] + 17)
    return given(g.normal(size=shape) + 1j * g.normal(size=shape))


def t_solve(p):
    sim, shape, eps = make_fdfd(p, wavelength=p['wl'])
    src = rnd(p, *shape, 1)
    f = sim.solve(src, tm_2d=p['tm'])
    out = [('fields', f), ('source', src), ('eps', sim.eps)]
    # a gradient-free use of the operators
    out += [('operator', sim.mat_hz.toarray() if p['tm'] else sim.mat_ez.toarray()), ('eps_t', sim.eps_t)]
    return out


def t_solve3(p):
    from simphox.fdfd import FDFD
    n = [(5, 4, 4), (4, 5, 4), (4, 4, 5)][p['s']]
    d = [.1, .12, (.1, .12, .15)][p['d']]
    g = nprng(p['v'])
    eps = g.uniform(1, 4, n) + .3j
    sim = FDFD(tuple(a * b for a, b in zip(n, np.ones(3) * d)), d, eps=eps, wavelength=p['wl'])
    return [('operator', sim.mat.toarray()), ('fields', sim.solve(rnd(p, 3, *n)))]


def t_gradient(p):
    import jax
    import jax.numpy as jnp
    sim, shape, eps = make_fdfd(p, wavelength=p['wl'])
    fn = sim.get_fields_fn(rnd(p, *shape, 1), tm_2d=p['tm'])
    w = jnp.array(nprng(p['v'] + 3).normal(size=shape))
    v, g = jax.value_and_grad(lambda r: jnp.sum(w * jnp.abs(fn(r)[1 if p['tm'] else 0][2].squeeze()) ** 2))(jnp.array(eps))
    return [('cost', np.array(v), float(np.sum(np.abs(w)))), ('gradient', np.array(g))]


def t_ports(p):
    sim, shape, eps = make_fdfd(p, ports=True, wavelength=p['wl'])
    pm = sim.port_modes()
    out = [(f'beta {n}', np.array(pm[n].io.betas)) for n in sorted(pm)]
    out += [('eps in', sim.eps)]
    src = sim.port_source({'a0': 1., ('b0', 0): .5} if p['pml'] else {'b0': 1})
    out.append(('source', np.abs(src)))
    meas = sim.get_measure_fn(use_jax=p['tm'])
    f = rnd(p, 2, 3, *shape, 1)
    out.append(('measure', np.abs(np.array(meas(f)))))
    return out


def t_sparams(p):
    sim, shape, eps = make_fdfd(p, ports=True, wavelength=p['wl'])
    name = ['a0', 'b0'][p['pml'] % 2]
    s, e, h = sim.decorate(*sim.get_sim_sparams_fn(name)(sim.eps))
    i = list(map(str, s.coords['port'].values)).index(name)
    labels = [str(x) for x in s.coords['port'].values]
    out = [('sparams', np.abs(s.values)), ('input', s.values[i:i + 1], 1.), ('fields', np.abs(h.values)), ('labels', labels)]
    a, b = sim.sparams(name)[:2]
    return out + [('sparams again', np.abs(np.asarray(a)))]


def t_component(p):
    from simphox.utils import splitter_metrics
    import xarray as xr
    g = nprng(p['v'])
    z = g.normal(size=4) + 1j * g.normal(size=4)
    return [(k, v, 1.) for k, v in sorted(splitter_metrics(xr.DataArray(z, dims='port', coords={'port': ['a0', 'a1', 'b0', 'b1']})).items())]


def t_modes(p):
    from simphox.mode import ModeLibrary, ModeSolver
    g = nprng(p['v'])
    if p['s'] == 0:
        eps = g.uniform(1, 1.2, 40)
        eps[12:26] += 6
        sim = ModeSolver((2.,), .05, p['wl'], eps=eps)
    else:
        shape = [(9, 8), (8, 9)][p['s'] - 1]
        eps = g.uniform(1, 1.2, shape)
        eps[2:6, 3:6] += 9
        sp = [.1, .12, (.1, .12)][p['d']]
        sim = ModeSolver(tuple(a * b for a, b in zip(shape, np.ones(2) * sp)), sp, p['wl'], eps=eps)
    keep = sim.eps.copy()
    lib = ModeLibrary(sim, 2)
    out = [('betas', lib.betas), ('operator', sim.C.toarray()), ('eps', keep)]
    out += [('h', np.abs(lib.h(0))), ('e', np.abs(lib.e(0))), ('n', lib.ns), ('phase', lib.phase(3., 0))]
    lib.update_wavelength(p['wl'] * 1.1)
    out.append(('betas later', lib.betas))
    out += [(f'sweep {i}', b) for i, (b, _) in enumerate(sim.dispersion_sweep(np.array([1.3, 1.5]), 2))]
    return out


def t_fdtd(p):
    import jax.numpy as jnp
    from simphox.fdtd import FDTD
    sim, shape, eps = make_fdfd(p, FDTD, use_jax=p['tm'])
    xp = jnp if p['tm'] else np
    st = sim.zero_state
    src = rnd(p, 3)
    for i in range(12):
        st = sim.step(st, [(xp.array(src * np.exp(.4j * i)), None, (slice(None), 5, 6, 0))])
    st2 = sim.zero_state
    out = [('e', st[0]), ('h', st[1]), ('dt', np.array(sim.dt)), ('zero', st2[0], 1.), ('zero h', st2[1], 1.)]
    for i in (2, 3):
        if st[i] is not None:
            out += [(f'psi {i} {j}', a, float(np.abs(np.asarray(st[i - 2])).max())) for j, a in enumerate(st[i])]
            out += [(f'zero psi {i} {j}', a, 1.) for j, a in enumerate(st2[i])]
    return out


def t_cw(p):
    from simphox.fdtd import FDTD
    sim, shape, eps = make_fdfd(p, FDTD, ports=True)
    flux, st = sim.run_cw_port(15, wavelength=p['wl'], source_port=['a0', 'b0'][p['pml'] % 2])
    return [('flux', np.abs(np.array(flux))), ('h', np.abs(st[1]))]


def t_opt(p):
    import jax.numpy as jnp
    from simphox.opt import OptProblem, opt_run
    from simphox.transform import get_mask_fn, get_symmetry_fn
    from simphox.utils import Box
    sim, shape, eps = make_fdfd(p, ports=True, wavelength=p['wl'])
    box = Box((4., 3.), min=(6, 3), spacing=1)
    mask = get_mask_fn(sim.eps, box)
    sym = get_symmetry_fn(ortho_y=True, avg=True) if p['d'] else (lambda x: x)
    prob = OptProblem(lambda r: mask(sym(r)), lambda sf: (-jnp.abs(sf[0][1]) ** 2, sf), sim, 'a0')
    start = given(eps + nprng(p['v'] + 9).uniform(0, 1, shape))
    rec = opt_run(prob, start, 3, step_size=.02)
    return [('costs', rec.costs, .1), ('eps', sim.eps), ('start', start)]


def t_constraints(p):
    from simphox.transform import get_mask_fn, get_smooth_fn, get_symmetry_fn
    from simphox.utils import Box, Material
    from simphox.grid import Grid
    g = nprng(p['v'])
    x = given(g.uniform(0, 1, (9, 9)))
    b = [Box((3., 2.), min=(1 + p['s'], 2), spacing=1), Box((2., 2.), min=(5, 5 + p['d']), spacing=1)]
    out = [('smooth', get_smooth_fn(1. + p['d'], 1 + p['s'] % 2, .5)(x)), ('mask', get_mask_fn(x, b[0])(x * 0)),
           ('masks', get_mask_fn(x, b)(x * 0)),
           ('symmetry', get_symmetry_fn(ortho_x=bool(p['s'] % 2), ortho_y=True, diag_p=bool(p['s'] % 2), avg=p['tm'])(x * 1)) if p['tm'] else ('none', x)]
    gr = Grid((.9, .9), .1, eps=1.5)
    gr.set_eps((.4, .5, 0), (.3, .2 + .1 * p['d'], 0), 3.)
    gr.fill(.2, 2. + p['s'])
    m = gr.mask_fn((.3, .3, 0), (.5, .4, 0))
    out += [('grid', gr.eps), ('grid mask', gr.mask((.4, .4, 0), (.2, .3, 0)))]
    h = Grid((.9, .9), .1)
    h.block_design(Box((.4, .2), Material('core', eps=9.), .1), wg_height=.3, sub_eps=2.1, sub_height=.3, rib_y=.1 * (p['s'] == 1),
                   block=Box((.1, .2), Material('block', eps=4.), .1) if p['d'] else None, sep=(.1, .1))
    out += [('block design', h.eps), ('boxes', np.array([*b[0].min, *b[0].size, *b[1].min, *b[1].size]))]
    del m
    return out


def t_operators(p):
    from simphox.grid import YeeGrid
    sim, shape, eps = make_fdfd(p, wavelength=p['wl'])
    out = [(f'forward {i}', np.asarray(d.toarray()), 20.) for i, d in enumerate(sim.deriv_forward)]
    out += [(f'backward {i}', np.asarray(d.toarray()), 20.) for i, d in enumerate(sim.deriv_backward)]
    g = YeeGrid(sim.size, sim.spacing[0] if p['d'] < 2 else tuple(sim.spacing), eps=eps)
    f = rnd(p, 3, *shape, 1)
    out += [('curl', np.array(g.curl_fn(of_h=p['tm'])(f))), ('curl beta', np.array(g.curl_fn(beta=2.)(f))), ('given', f)]
    return out


def target(p, n):
    q, r = np.linalg.qr(rnd({'v': p['v'] + n}, n, n))
    return given(q * (np.diag(r) / np.abs(np.diag(r))))


ERR = [(0., 0.), (.02, .01), (0., .03)]


def t_mesh(p):
    from simphox.circuit import rectangular, tree_cascade, triangular
    n = [3, 4, 5][p['s']]
    u = target(p, n)
    np.random.seed(p['v'])
    kind = p['pml']
    e = ERR[p['d']]
    if kind == 0:
        m = rectangular(u)
    elif kind == 1:
        m = triangular(u, error_mean_std=e)
    else:
        m = tree_cascade(u, error_mean_std=e, phase_style=['top', 'bottom'][p['v'] % 2])
    th, ph, ga = m.params
    out = [('target', u), ('matrix', m.matrix(), 1.), ('errors', m.all_errors, 1.), ('losses', m.all_losses, 1.)]
    r = nprng(p['v'] + 1)
    x = rnd(p, n)
    q = tuple(given(r.uniform(0, 6, a.shape)) for a in (th, ph, ga))
    out += [('matrix of', m.matrix(q), 1.), ('backward', m.matrix(q, back=True), 1.), ('propagated', m.propagate(x), 1.),
            ('columns', np.array([c.num_nodes for c in m.columns]), 1.),
            ('jax', np.array(m.matrix_fn(use_jax=True)(q, np.eye(n))) if p['tm'] else 0, 1.)]
    m.params = q
    m.program_by_null_basis(m.nullification_basis)
    m.params = tuple(np.array(a) for a in q)
    m = m.add_error_variance(.02, .1 * p['x'])
    out += [('drawn errors', m.all_errors, 1.), ('matrix with errors', m.matrix(), 1.)]
    return out


def t_vector(p):
    from simphox.circuit.vector import balanced_tree, hessian_vector_unit, unbalanced_tree, vector_unit
    n = [3, 4, 6][p['s']]
    v = rnd(p, n)
    np.random.seed(p['v'])
    f = balanced_tree if p['tm'] else unbalanced_tree
    m = f(v, bs_error_mean_std=ERR[p['d']])
    w = vector_unit(v, balanced=p['tm'])
    w = w[0] if isinstance(w, tuple) else w
    out = [('vector', v), ('matrix', m.matrix(), 1.), ('unit', w.matrix(), 1.), ('thetas', w.params[0], 1.)]
    if n > 3:
        out.append(('hessian', hessian_vector_unit(v, p['tm']), 1.))
    return out


def t_program(p):
    from simphox.circuit import triangular, tree_cascade
    n = [3, 4, 5][p['s']]
    u = target(p, n)
    np.random.seed(p['v'])
    mk = triangular if p['tm'] else tree_cascade
    m = mk(u)
    basis = m.nullification_basis
    dev = mk(target({'v': p['v'] + 50}, n))
    dev.add_error_mean(.01 * p['d'])
    q = dev.params
    dev.program_by_null_basis(basis)
    return [('basis', np.abs(np.array(basis)), 1.), ('matrix', np.abs(dev.matrix()), 1.), ('phases given', np.array(q[0]), 6.)]


def t_insitu(p):
    import jax
    import jax.numpy as jnp
    from simphox.circuit import rectangular
    n = 3
    u = target(p, n)
    m = rectangular(u)
    m.add_error_mean(.01 * p['d'])
    fn = m.in_situ_matrix_fn(all_analog=p['tm'])
    x = jnp.array(rnd(p, n, 2))
    q = tuple(jnp.array(a) for a in m.params)
    v, g = jax.value_and_grad(lambda q: jnp.sum(jnp.abs(fn(q, x)) ** 2 * jnp.arange(1., n + 1)[:, None]))(q)
    s = float(v)
    return [('value', v), ('theta', g[0], s), ('phi', g[1], s), ('x', np.array(x))]


def t_training(p):
    import haiku as hk
    import jax
    import jax.numpy as jnp
    from simphox.circuit import rectangular
    from simphox.circuit.forward import InSituBackpropLayer
    n = 3
    m = rectangular(target(p, n))
    net = hk.without_apply_rng(hk.transform(lambda z: InSituBackpropLayer(m, activation=lambda y: jnp.abs(y) ** 2, set_gammas_zero=p['tm'])(z)))
    x = jnp.array(nprng(p['v']).normal(size=(4, n)))
    q = net.init(jax.random.PRNGKey(p['v']), x)
    v, g = jax.value_and_grad(lambda q: jnp.sum(net.apply(q, x)[:, 0] ** 2))(q)
    return [('value', v)] + [(f'{k} {a}', b, float(v)) for k in sorted(g) for a, b in sorted(g[k].items())]


def t_mesh_opt(p):
    from simphox.circuit import rectangular
    n = 3
    m = rectangular(target(p, n))
    u = target({'v': p['v'] + 5}, n)
    st, up, get = m.matrix_opt(u, step_size=.01 * (1 + p['d']), use_jit=p['tm'])
    vs = []
    for i in range(3):
        v, st = up(i, st)
        vs.append(float(v))
    return [('errors', np.array(vs), 1.), ('thetas', m.params[0], 6.)]


def t_random(p):
    from simphox.utils import random_tensor, random_unitary, random_vector
    from simphox.circuit import rectangular
    from simphox.circuit.vector import butterfly, tree
    n = 2 + p['s']
    m = tree(n + 1) if p['tm'] else rectangular(target(p, n))
    use = {'unitary': lambda: random_unitary(n), 'vector': lambda: random_vector(n, normed=p['tm']), 'tensor': lambda: random_tensor((n, 2), p['tm']),
           'split': m.rand_s, 'settings': m.rand_theta,
           'new mesh': lambda: (tree(n + 1, balanced=p['pml'] == 1) if p['pml'] else butterfly(4)).matrix(),
           'error': lambda: m.add_error_variance(.02, .1 * p['x']).all_errors,
           'loss': lambda: m.add_error_variance(.02, .1, equal_splitter_error=p['x'] == 1).all_losses}
    out = []
    for k in (list(use) if p['d'] else ['unitary', 'error', 'new mesh']):
        got = []
        for seed in (p['v'], p['v'] + 8, p['v'] + 15):
            np.random.seed(seed)
            random.seed(seed)
            got.append((np.array(use[k]()), np.random.random(), random.random()))
        out.append((k, got[0][0], 1.))
        for i, j in ((0, 1), (0, 2), (1, 2)):
            a, b = got[i], got[j]
            out.append((f'must {k}: seeds matter', np.array(not np.allclose(a[0], b[0], atol=1e-12))))
            out.append((f'must {k}: generators go on', np.array(a[1] != b[1] and a[2] != b[2])))
    np.random.seed(p['v'])
    return out + [('unitary', random_unitary(n)), ('vector', random_vector(n, normed=p['tm'])), ('tensor', random_tensor((n, 2), p['tm']))]


def t_formulas(p):
    from simphox.circuit.coupling import CouplingNode, coupling_matrix_phase, direct_transmissivity, transmissivity_to_phase
    from simphox.circuit.forward import ForwardMesh
    from simphox.circuit.vector import tree
    from simphox.circuit.envelope import binary_svd_depth_size, rectangular_depth_size
    from simphox.circuit.matrix import cs, csinv, psvd
    from simphox.utils import Box, gaussian_fn, normalized_error, pml_sigma, yee_avg
    n = [4, 6, 4][p['s']]
    u = target(p, n)
    nd = CouplingNode(n=n, top=0, bottom=1 + p['s'] % 2, bs_error=(.02 * p['d'], .01), loss=(-.2 * p['x'], -.1 * (p['x'] == 2)))
    dec = cs(u)
    if p['x']:
        m = tree(n)
        m.nodes[1].loss = (-.3 * p['x'], -.1)
        m = ForwardMesh(m.nodes, phase_style=['top', 'bottom'][p['x'] - 1])
        m.params = .3 + np.arange(n - 1), .2 + np.arange(n - 1.), np.zeros(n)
        lossy = np.concatenate([m.matrix().ravel(), np.asarray(m.propagate(np.eye(n) + 0j)).ravel()])
    else:
        lossy = 0
    out = [('given', u), ('lossy', lossy, 1.), ('cs', csinv(*dec), 1.), ('node', nd.mzi_node_matrix(1.2, .3), 1.), 
           ('coupling', coupling_matrix_phase(.4, .1 * p['d'], .1 * p['x']), 1.), ('split', direct_transmissivity(u[0], u[1])),
           ('phase', transmissivity_to_phase(.3, nd.mzi_terms)), ('size', np.array([v for _, v in sorted(binary_svd_depth_size(8, 4 + p['s']).items())], float)),
           ('rectangular size', np.array([v for _, v in sorted(rectangular_depth_size(8 + p['d']).items())], float)), ('error', normalized_error(u)(u + .1)),
           ('gauss', np.array([gaussian_fn(p['wl'], fwidth=.5)(t) for t in (1., 20., 60., 65.)]), 1.),
           ('average', yee_avg(np.abs(rnd(p, 3, 4, 1)))), ('sigma', pml_sigma(np.linspace(0, 1, 9), 3, 4, -16, 1)),
           ('sigma graded', pml_sigma(np.cumsum([0, *nprng(p['v']).permutation(np.arange(1., 10))]) / 45, 3, 4, -16, 1))]
    l, d, r = psvd(rnd(p, n, n))
    out.append(('psvd', l.matrix() @ d @ r.matrix() if hasattr(l, 'matrix') else 0, 1.))
    return out


def t_plots(p):
    import matplotlib
    from simphox.viz import get_extent_2d
    assert matplotlib.get_backend().lower() == 'agg', 'backend changed'
    return [('extent', np.array(get_extent_2d((5, 6 + p['s']), .1), float))]


TASKS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}
HEAVY = {'gradient', 'cw', 'sparams', 'opt', 'insitu', 'training', 'mesh_opt'}
RANDOM = {'mesh', 'vector', 'random', 'program'}   # these seed the generators themselves, like a user does
CHEAP = ['solve', 'solve3', 'modes', 'operators', 'vector', 'program', 'random', 'formulas', 'formulas', 'mesh', 'fdtd', 'ports']
WEIGHT = {'solve': 3, 'gradient': 2, 'ports': 3, 'modes': 2, 'fdtd': 3, 'mesh': 4, 'operators': 2, 'random': 2, 'formulas': 1.5, 'plots': .3, 'component': .4,
          'training': .7, 'mesh_opt': .8, 'opt': 1}


def gen(rng, tier):
    ops = []
    light = sorted(set(TASKS) - HEAVY)
    cheap = rng.chance(.55)   # a long session of computations without JAX, many nearly the same
    if cheap:
        pool = rng.sample(CHEAP, rng.randrange(2, 6))
    else:
        pool = rng.sample(light, rng.randrange(3, 8)) + rng.sample(['solve', 'mesh', 'ports', 'fdtd', 'modes'], 2)
        if rng.chance(.6):
            pool.append(rng.choice(sorted(HEAVY)))
    for _ in range(rng.randrange(15, 40) if cheap else rng.randrange(4, 13)):
        if ops and rng.chance(.5 if cheap else .3):   # again, or nearly so
            op = {**ops[rng.randrange(len(ops))]}
            if rng.chance(.7):
                k = rng.choice(['s', 'd', 'pml', 'v', 'wl', 'tm', 'x'])
                op['p'] = {**op['p'], k: {'s': rng.randrange(3), 'd': rng.randrange(3), 'pml': rng.randrange(3), 'v': rng.randrange(1, 4),
                                          'wl': rng.choice([1.2, 1.31, 1.55]), 'tm': rng.chance(.5), 'x': rng.randrange(3)}[k]}
        else:
            op = {'task': rng.weighted([(t, WEIGHT.get(t, 1)) for t in pool]),
                  'p': {'s': rng.randrange(3), 'd': rng.randrange(3), 'pml': rng.randrange(3), 'v': rng.randrange(1, 4),
                        'wl': rng.choice([1.2, 1.31, 1.55]), 'tm': rng.chance(.5), 'x': rng.randrange(3)}}
        if cheap and op['task'] in ('mesh', 'fdtd', 'ports'):
            op['p'] = {**op['p'], 'tm': False}
        op['fault'] = rng.choice([{'kind': 'line', 'line': rng.randrange(1, 600), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])},
                                  {'kind': 'native'}, {'kind': 'eigs'}]) if rng.chance(.2) else None
        op['after'] = rng.weighted([('keep', 3), ('scribble', 3), ('drop', 2)])
        op['seed'] = rng.seed32()
        ops.append(op)
    return {'config': {}, 'ops': ops}


# ---------------------------------------------------------------- the process

def settings():
    import jax
    s = {'np.geterr': np.geterr(), 'np.printoptions': {k: str(v) for k, v in np.get_printoptions().items()}, 'environ': dict(os.environ), 'cwd': os.getcwd(),
         'warning filters': [str(f) for f in warnings.filters], 'recursion limit': sys.getrecursionlimit(),
         'signal handlers': [str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
         'threads': sorted(t.name for t in threading.enumerate()), 'gc': (gc.isenabled(), gc.get_threshold()), 'switch interval': sys.getswitchinterval(),
         'stdout': (id(sys.stdout), id(sys.stderr)), 'excepthook': id(sys.excepthook), 'bufsize': np.getbufsize(),
         'path': list(sys.path), 'float error handler': str(np.geterrcall()), 'logging': (logging.root.level, logging.root.manager.disable),
         'decimal precision': decimal.getcontext().prec}
    for k in ('jax_enable_x64', 'jax_platform_name', 'jax_platforms', 'jax_disable_jit', 'jax_debug_nans', 'jax_debug_infs', 'jax_default_matmul_precision',
              'jax_numpy_rank_promotion', 'jax_numpy_dtype_promotion', 'jax_log_compiles', 'jax_default_prng_impl', 'jax_check_tracer_leaks'):
        s[k] = str(getattr(jax.config, k, None))
    if 'matplotlib' in sys.modules:
        s['matplotlib'] = {k: str(v) for k, v in sys.modules['matplotlib'].rcParams.items() if k != 'backend_fallback'}
    if 'pandas' in sys.modules:
        pd = sys.modules['pandas']
        s['pandas'] = [pd.get_option(k) for k in ('display.max_rows', 'display.precision', 'mode.chained_assignment')]
    return s


def changed(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                out += [f'{k} {j}: {a[k].get(j)} -> {b[k].get(j)}' for j in sorted({*a[k], *b[k]}) if a[k].get(j) != b[k].get(j)]
            elif k == 'warning filters':
                out.append(f'{k}: {[x for x in b[k] if x not in a[k]][:3]} new, {[x for x in a[k] if x not in b[k]][:3]} gone')
            else:
                out.append(f'{k}: {a[k]} -> {b[k]}')
    return out


def perform(op, ambient):
    """Seeds the ambient generators and runs the computation; results as plain arrays, and the state of the generators."""
    import random
    from ..seams import S
    S.eigs_seed, S.eigs_calls = 5, 0
    np.random.seed(ambient)
    random.seed(ambient)
    GIVEN.clear()
    raw = TASKS[op['task']](op['p'])
    raw = [*raw, ('must leave the arrays given', np.array(all(np.array_equal(a, b) for a, b in GIVEN)))]
    out = []
    for x in raw:
        a = np.asarray(x[1])
        out.append((x[0], a.copy() if a.dtype.kind in 'US' else np.array(a), None if len(x) < 3 else x[2]))
    return out, raw, (float(np.random.random()), random.random())


def alone(op, do=None):
    """The computation in a new process (a fork of this one before it did anything)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            before = settings()
            try:
                out, _, state = (do or perform)(op, 12345)
                res = ('ok', out, state, changed(before, settings()))
            except BaseException as e:  # noqa
                import traceback
                res = ('error', f'{type(e).__name__}: {str(e)[:300]} {traceback.format_exc()[-900:]}')
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect(pid, r):
    buf = bytearray()
    while True:
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf.extend(c)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError('a computation alone gave nothing')
    return pickle.loads(bytes(buf))


def run(plan, ctx):
    from ..seams import Interrupter, S
    refs, todo = {}, {}
    key = lambda op: f'{op["task"]} {sorted(op["p"].items())}'  # noqa
    for op in plan['ops']:
        if key(op) not in refs:
            refs[key(op)] = collect(*alone(op))
    hist, kept = [], []
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k = key(op)
        ref = refs[k]
        msg = f'{k} after {hist[-5:]}'
        if ref[0] == 'error':
            ctx.check(False, 'failed-alone', lambda: f'{k} alone: {ref[1]}')
        ctx.check(not ref[3], 'process-changed', lambda: f'{k} alone: {"; ".join(ref[3])[:600]}')
        before = settings()
        f = op['fault']
        failed, out = False, None
        it = Interrupter(f['line'] if f and f['kind'] == 'line' else None, {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[f['exc']] if f and f['kind'] == 'line' else KeyboardInterrupt)
        if f and f['kind'] == 'native':
            S.native_faults = [{'kind': 'error', 'code': -2, 'skip': 0}]
        elif f and f['kind'] == 'eigs':
            S.eigs_faults = [{'kind': 'eigs', 'exc': 'KeyboardInterrupt', 'skip': 0}]
        try:
            if f:
                with it:
                    out, raw, state = perform(op, op['seed'] % 2 ** 32)
                out = None   # nothing is claimed when a fault was swallowed in between
            else:
                out, raw, state = perform(op, op['seed'] % 2 ** 32)
        except BaseException as e:  # noqa
            if not f:
                raise
            failed = True
            ctx.fault({'line': 'interrupt', 'native': 'native failure', 'eigs': 'eigensolver'}[f['kind']])
            del e
            raw = []
        finally:
            pend = S.native_faults
            S.native_faults, S.eigs_faults = [], []
        if f and not failed and (it.fired or not pend):
            ctx.probe('fault not met or survived')
        diff = changed(before, settings())
        ctx.check(not diff, 'process-changed', lambda: f'{msg}{" (failed)" if failed else ""}: {"; ".join(diff)[:600]}')
        ctx.sim_time += 1
        if not f:
            want = ref[1]
            ctx.check([x[0] for x in out] == [x[0] for x in want], 'session-dependent', lambda: f'{msg}: {[x[0] for x in out]} alone {[x[0] for x in want]}')
            for (name, a, sc), (_, b, _) in zip(out, want):
                if name.startswith('must '):
                    ctx.check(bool(a) and bool(b), 'inputs-changed' if 'given' in name else 'reseeded', lambda: f'{msg}: {name} does not hold')
                    continue
                if a.dtype.kind in 'US' or b.dtype.kind in 'US':
                    ctx.check(np.array_equal(a, b), 'session-dependent', lambda: f'{msg}: {name} {a} alone {b}')
                else:
                    ctx.close(a, b, 'session-dependent', tol=1e-6, scale=sc if sc is not None else max(float(np.abs(b).max()), 1e-12) if b.size else 1, msg=f'{msg}: {name}')
            if op['task'] not in RANDOM and op['seed'] % 2 ** 32 != 12345:
                ctx.check(state[0] != ref[2][0] and state[1] != ref[2][1], 'reseeded', lambda: f'{msg}: the random generators are in the same state as in a new process')
        if op['after'] == 'keep':
            kept.append(raw)
        elif op['after'] == 'scribble':
            for x in raw:
                if isinstance(x[1], np.ndarray) and x[1].flags.writeable and x[1].dtype.kind in 'fc':
                    x[1][...] = -7.5
            ctx.fault('results overwritten')
        raw = None
        gc.collect() if op['after'] == 'drop' else None
        hist.append(op['task'] + ('!' if failed else ''))
        ctx.state(hist[-2:], (f or {}).get('kind'), op['after'])
        ctx.log(op['task'], failed, *([sig(np.abs(out[0][1]), 4)] if out and out[0][1].dtype.kind in 'fc' else []))
    ctx.check(not S.misuse, 'native-misuse', lambda: '; '.join(S.misuse))
