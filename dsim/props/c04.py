"""C04: gradients of simulations are right whenever the backward pass runs and whatever was solved in between."""
import numpy as np
import scipy.sparse as sp
from scipy.sparse.linalg import splu

from ..core import nprng, sig
from ..ref import RefGrid, backward_error

ID = 'C04'
TITLE = 'Gradients of simulations are right whenever the backward pass runs'
LEVEL = 'exploration'
RUNS = {'quick': 72, 'thorough': 1600}
NOTE = ('Seeded search over histories of forward passes and (deferred, reordered, repeated) backward passes of the real '
        'JAX and native solver code; each gradient is compared with directional derivatives of an independent Yee '
        'solver along random directions.')
RULE = 'a history of 6-25 forward and backward passes over 2-3 simulations of similar shape (also small 3D ones with the iterative solver), mixed with other solves and failures.'
STATE = 'hash of (operation, number of pending backward passes, position of the one run, faults)'
REAL = ['simphox.primitives', 'simphox.fdfd', 'simphox.mkl', 'JAX (autodiff, host callbacks)', 'Intel MKL Pardiso (native)']
STUB = ['native call failures (proxy at the call boundary)']
ASSUMES = ['each JAX computation is waited for before the next operation, so host callbacks are ordered']
PROPERTY = {
    'statement': 'The fields computed from differentiable parameters solve the equations for those parameters, and a '
                 'gradient obtained by running a backward pass is the derivative of the forward pass it belongs to, for '
                 'both 2D polarizations and in 3D, with and without absorbing layers and transforms, compiled or not. It does not '
                 'matter how many other solves, forward or backward passes, edits of the simulation or failed passes '
                 'happened in between, nor in which order or how often backward passes run.',
    'quantifier': {'over': ['histories', 'fault_sequences', 'inputs'],
                   'text': 'all orders of forward passes, backward passes, other solves and failing solves'},
    'why_tests_cant': 'Gradient tests take one gradient right after one forward pass, when the solver still holds the '
                      'matching factorization; the backward pass solves the transposed system, whose storage differs '
                      'from the forward one only in the index arrays.',
    'anchors': {
        'files': ['simphox/primitives.py', 'simphox/fdfd.py', 'simphox/mkl.py'],
        'state': [{'name': 'factorization shared by forward and backward solves', 'meaning': 'system of the last solve',
                   'where': 'simphox/mkl.py Pardiso'}],
        'mechanism': [{'name': 'custom derivative of the sparse solve', 'where': 'simphox/primitives.py spsolve_bwd'},
                      {'name': 'operator assembly and its derivative', 'where': 'simphox/primitives.py TMOperator'}],
        'observe_at': ['FDFD.get_fields_fn', 'simphox.primitives.spsolve', 'jax.vjp, jax.grad, jax.jit of them'],
        'hook_needed': None},
}
SHAPES = [(12, 10), (10, 12), (12, 10)]


def setup():
    import simphox.fdfd, simphox.mkl  # noqa


def gen(rng, tier):
    sims = []
    for i in range(rng.choice([2, 2, 3])):
        sims.append({'shape': rng.choice(SHAPES), 'pol': rng.choice(['tm', 'tm', 'te']), 'pml': rng.chance(.4),
                     'wavelength': rng.choice([1.3, 1.55]), 'tf': rng.choice(['none', 'none', 'affine', 'square', 'mask']),
                     'src': rng.seed32(), 'jit': rng.chance(.3),
                     'spacing': rng.choice([[.1] * 3, [.1, .12, .1], [.12, .1, .11]]),
                     'pml_params': rng.choice([[4, -16, 1.], [3, -13, 1.2]]), 'pml_long': rng.choice([4, 5])})
    if rng.chance(.2):   # a 3D simulation (iterative solver)
        sims[-1].update(shape=(6, 5, 4), pol='3d', jit=True, pml=False, wavelength=rng.choice([.8, 1.55]))
    ops = []
    for _ in range(rng.randrange(8, 26)):
        k = rng.weighted([('fwd', 6), ('bwd', 8), ('linear', 3), ('solve', 1.5), ('edit', 1), ('prim', 2), ('primb', 2)])
        op = {'op': k, 'seed': rng.seed32(), 'sim': rng.randrange(len(sims)), 'pick': rng.randrange(100),
              'keep': rng.chance(.3), 'fault': None}
        if k == 'fwd':
            op['rho'] = rng.choice(['new', 'new', 'same', 'near'])
        if k == 'linear':
            op['how'] = rng.choice(['other', 'transpose-of-last', 'same-pattern'])
        if k in ('prim',):
            op['n'] = rng.choice([5, 12, 30])
        if k in ('fwd', 'bwd') and rng.chance(.1):
            op['fault'] = rng.choice([{'kind': 'error', 'code': rng.choice([-2, -4])},
                                      {'kind': 'error-late', 'code': -9, 'seed': rng.seed32()},
                                      {'kind': 'raise', 'exc': 'MemoryError'},
                                      {'kind': 'pivots', 'code': 3, 'seed': rng.seed32()}])
        ops.append(op)
    return {'config': {'sims': sims}, 'ops': ops}


def run(plan, ctx):
    import jax
    import jax.numpy as jnp
    from simphox.fdfd import FDFD
    from simphox.mkl import spsolve_pardiso
    from simphox.primitives import spsolve
    from ..seams import S
    sims = []
    for c in plan['config']['sims']:
        shape = tuple(c['shape'])
        d = np.array(c['spacing'][:len(shape)])
        size = tuple(float(v) for v in d * shape)
        pml = tuple((.5 + (c['pml_long'] if n > 10 else 4)) * v for n, v in zip(shape, d)) if c['pml'] else None
        d = .1 if np.ptp(d) == 0 else d
        g = nprng(c['src'])
        sim = FDFD(size, d, wavelength=c['wavelength'], eps=1 + g.uniform(0, 1, shape), pml=pml,
                   pml_params=tuple(c['pml_params']))
        is3d = c['pol'] == '3d'
        src = np.zeros(((3,) if is3d else ()) + shape, complex)
        src[(2,) * is3d + tuple(s // 2 for s in shape)] = 1
        src += .1 * g.uniform(-1, 1, src.shape)
        mask = np.zeros(shape)
        mask[3:8, 2:7] = 1
        tf = {'none': None, 'affine': lambda r: 1.5 + .7 * r, 'square': lambda r: .5 + r ** 2 / 2,
              'mask': lambda r, m=mask: 2. * (1 - m) + r * m}[c['tf']]
        fn = sim.get_fields_fn(src, tf, tm_2d=c['pol'] == 'tm')
        sims.append(dict(c, sim=sim, srcv=src, tfn=tf or (lambda r: r), fn=jax.jit(fn) if c['jit'] else fn,
                         shape=shape, geo=(size, d), pmlv=(pml, tuple(c['pml_params'])), last=None,
                         tol=dict(fields={'tol': 1e-3}, grad=3e-3) if is3d else dict(fields={}, grad=1e-5)))
    pending, prims, last_mat = [], [], None

    def ref(s, rho):
        return RefGrid(*s['geo'], s['tfn'](rho), s['wavelength'], *s['pmlv'])

    def guarded(op, fn):
        f = op.get('fault')
        S.native_faults = [dict(f)] if f else []
        try:
            return True, fn()
        except Exception:  # noqa
            if not f or S.native_faults:
                raise
            return False, None
        finally:
            fired = f and not S.native_faults
            S.native_faults = []
            if fired:
                ctx.log('fault fired')

    for k, op in enumerate(plan['ops']):
        ctx.op_index = k
        g = nprng(op['seed'])
        s = sims[op['sim'] % len(sims)]
        if op['op'] == 'fwd':
            if op['rho'] == 'new' or s['last'] is None:
                rho = g.uniform(1, 3, s['shape'])
            else:
                rho = s['last'].copy()
                if op['rho'] == 'near':
                    rho[(g.randint(3, 8) % rho.shape[0], g.randint(2, 7) % rho.shape[1])] += .05
            s['last'] = rho
            ok, r = guarded(op, lambda: jax.vjp(s['fn'], jnp.array(rho)))
            if ok:
                ok, y = guarded({'fault': None}, lambda: np.asarray(r[0]))
                rg = ref(s, rho)
                rg.check_fields(ctx, y, s['srcv'], s['pol'], 'wrong-fields', msg=f'sim {op["sim"]} {s["pol"]} forward', **s['tol']['fields'])
                last_mat = rg.matrix(s['pol'])
                pending.append((s, rho, r[1], y.shape, op['sim']))
                ctx.log(k, 'fwd', op['sim'], sig(y))
            else:
                ctx.log(k, 'fwd failed')
            ctx.state('fwd', len(pending), op['rho'], ok)
        elif op['op'] == 'bwd' and pending:
            i = op['pick'] % len(pending)
            s, rho, vjp, shape, idx = pending[i]
            ct = g.uniform(-1, 1, shape) + 1j * g.uniform(-1, 1, shape)
            if g.randint(3) == 0:  # sparse cotangent, as of a port measurement
                ct = ct * (g.uniform(0, 1, shape) > .95)
            ok, grad = guarded(op, lambda: np.asarray(vjp(jnp.array(ct))[0]))
            ctx.state('bwd', len(pending), i, ok, op['keep'])
            if not ok:
                ctx.log(k, 'bwd failed')
                continue
            if not op['keep']:
                pending.pop(i)
            ctx.check(grad.shape == rho.shape, 'wrong-gradient', f'gradient of shape {grad.shape}')
            ctx.check(np.all(np.isfinite(grad)), 'wrong-gradient', 'gradient not finite')
            for _ in range(2):
                d = g.normal(size=rho.shape)
                wants = []
                for h in (1e-3, 2e-4):   # close to resonances the difference quotient needs a smaller step
                    y = {j: ref(s, rho + j * h * d).solve(s['srcv'], s['pol']) for j in (-2, -1, 1, 2)}
                    dy = (8 * (y[1] - y[-1]) - (y[2] - y[-2])) / (12 * h)
                    wants.append(float(np.sum(ct * dy).real))
                got = float(np.sum(grad * d))
                scale = np.linalg.norm(grad) + np.sum(np.abs(ct) * np.abs(dy)) / np.sqrt(ct.size)
                unsure = abs(wants[0] - wants[1])
                if unsure > .01 * scale:
                    ctx.probe('too close to a resonance')
                    continue
                ctx.close(got, wants[1], 'wrong-gradient', tol=1, scale=s['tol']['grad'] * scale + unsure,
                          msg=f'sim {idx} ({s["pol"]}, transform {s["tf"]}, {len(pending)} other backward passes pending): '
                              f'directional derivative')
            ctx.log(k, 'bwd', idx, sig(grad))
        elif op['op'] == 'linear':
            if op['how'] == 'transpose-of-last' and last_mat is not None:
                a = sp.csr_matrix(last_mat.T)
            elif op['how'] == 'same-pattern' and last_mat is not None:
                a = last_mat.copy()
                a.data = a.data * (1 + .01 * g.uniform(0, 1, a.data.size))
            else:
                n = int(g.randint(5, 40))
                a = sp.csr_matrix(sp.diags(3 + 1j * g.uniform(0, 1, n)) + sp.diags(g.uniform(0, 1, n - 1) + 0j, 1))
            b = g.uniform(-1, 1, a.shape[0]) + 0j
            be = backward_error(a, spsolve_pardiso(a, b), b)
            ctx.check(be < 1e-9, 'wrong-solution', f'linear solve between passes (relative residual {be:.3g})')
            ctx.log(k, 'linear', op['how'])
        elif op['op'] == 'solve':
            f = s['sim'].solve(s['srcv'], tm_2d=s['pol'] == 'tm')
            RefGrid(*s['geo'], s['sim'].eps, s['wavelength'], *s['pmlv']).check_fields(
                ctx, f, s['srcv'], s['pol'], 'wrong-fields', msg='direct solve between passes')
            ctx.log(k, 'solve')
        elif op['op'] == 'edit':
            s['sim'].eps = g.uniform(1, 3, s['shape'])
            ctx.log(k, 'edit')
        elif op['op'] == 'prim':
            n = op['n']
            m = 3 * n
            i = np.r_[np.arange(n), g.randint(0, n, m)]
            j = np.r_[np.arange(n), g.randint(0, n, m)]  # duplicates are summed
            v = np.r_[8 + 2j * g.uniform(0, 1, n), g.uniform(-.5, .5, m) + .5j * g.uniform(-1, 1, m)]
            b = g.uniform(-1, 1, n) + 1j * g.uniform(-1, 1, n)
            ind = jnp.array(np.stack((i, j)))
            ok, r = guarded(op, lambda: jax.vjp(lambda a, q: spsolve(a, q, ind), jnp.array(v), jnp.array(b)))
            x = np.asarray(r[0])
            a = sp.csr_matrix(sp.coo_matrix((v, (i, j)), shape=(n, n)))
            be = backward_error(a, x, b)
            ctx.check(be < 1e-9, 'wrong-solution', f'differentiable sparse solve (relative residual {be:.3g})')
            prims.append((a, r[1], x, (i, j)))
            ctx.log(k, 'prim', sig(x))
        elif op['op'] == 'primb' and prims:
            q = op['pick'] % len(prims)
            a, vjp, x, (i, j) = prims[q] if op['keep'] else prims.pop(q)
            ct = g.uniform(-1, 1, x.size) + 1j * g.uniform(-1, 1, x.size)
            ga, gb = (np.asarray(z) for z in vjp(jnp.array(ct)))
            lam = splu(sp.csc_matrix(a.T)).solve(ct)
            ctx.close(gb, lam, 'wrong-gradient', tol=1e-8, msg='gradient of the right-hand side')
            ctx.close(ga, -lam[i] * x[j], 'wrong-gradient', tol=1e-8, msg='gradient of the matrix entries')
            ctx.log(k, 'primb', sig(ga), sig(gb))
            ctx.state('primb', len(pending))
    ctx.check(not S.misuse, 'native-misuse', lambda: '; '.join(S.misuse))
