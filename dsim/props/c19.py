"""C19: in situ backpropagation and the mesh optimizer see the true gradient, throughout training."""
import numpy as np

from ..core import nprng, sig
from .meshsim import Nodes, draw_errors, draw_mesh, make_mesh, rand_params, unitary

ID = 'C19'
TITLE = 'In situ backpropagation gives the true gradients throughout training'
LEVEL = 'exploration'
RUNS = {'quick': 26, 'thorough': 4000}
TIME_UNIT = 'training steps'
NOTE = 'Seeded search over architectures, errors, networks, losses, noise and training histories; not exhaustive.'
RULE = ('1-2 meshes with coupler errors (some with losses) as a network with complex or real inputs, and 2-3 '
        'operations: training steps with the gradients of the in situ function, of its haiku layer, noisy evaluations, '
        'interrupted steps, parameter resets, runs of the matrix optimizer.')
STATE = 'hash of (architecture, scheme, layers, last two operations)'
REAL = ['simphox.circuit.forward', 'simphox.circuit.vector', 'simphox.circuit.matrix', 'JAX', 'haiku']
STUB = ['global NumPy random state (seeded), noise of the detectors']
ASSUMES = ['phase styles top and bottom', 'gradients for the phases without losses', 'gradients without noise are exact to single precision']
PROPERTY = {
    'statement': 'Without noise, the in situ matrix function (analog or digital, compiled or not, also as a haiku layer) returns '
                 'the matrix of the mesh for the current parameters times the inputs, and its gradients for the '
                 'inputs, and those for the phases of a lossless mesh, are those of the loss at every step of a '
                 'training, for one or several layers, any inputs (vector or matrix, real or complex, any scale) and '
                 'coupler errors; '
                 'noise changes outputs and gradients only in proportion to it. matrix_opt starts from the given '
                 'parameters, reports the normalized error of the current ones at each step, moves down its gradient and '
                 'leaves the mesh alone.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories', 'crash_points'],
                   'text': 'all architectures, errors, networks, losses, inputs, parameters and training histories'},
    'why_tests_cant': 'No test evaluates an in situ gradient; a wrong index, arm or scale still trains a little and is '
                      'seen only next to independent derivatives.',
    'anchors': {
        'files': ['simphox/circuit/forward.py', 'simphox/utils.py'],
        'state': [{'name': 'residuals', 'meaning': 'parameters and inputs of the forward pass', 'where': 'simphox/circuit/forward.py in_situ_matrix_fn'}],
        'mechanism': [{'name': 'gradient measurement', 'where': 'simphox/circuit/forward.py in_situ_matrix_fn, phase_shift_localize'},
                      {'name': 'matrix optimizer', 'where': 'simphox/circuit/forward.py matrix_opt'}],
        'observe_at': ['jax.grad of in_situ_matrix_fn, InSituBackpropLayer, matrix_opt'],
        'hook_needed': None},
}


def setup():
    import simphox.circuit, simphox.circuit.vector  # noqa


def gen(rng, tier):
    c = draw_mesh(rng, nmax=4, styles=['top', 'top', 'bottom'])
    c['rails'] = min(c['rails'], 1)
    if c['kind'] == 'butterfly':
        c['n'] = min(c['n'], 4)
    analog = rng.chance(.6)
    cfg = {'mesh': c, 'layers': rng.choice([1, 1, 1, 2]), 'analog': analog, 'jit': rng.chance(.3), 'loss': rng.choice([0, 0, 0, .3]),
           'inputs': rng.choice(['vector', 'wide', 'real', 'eye']), 'scale': rng.choice([1, 1, 1e-2, 30]), 'w': rng.seed32(),
           'cost': rng.choice(['power', 'linear'])}
    ops = []
    for _ in range(rng.randrange(2, 4)):
        ops.append({'op': rng.weighted([('step', 5), ('reset', 1), ('noise', 1), ('layer', 1), ('opt', 1.2), ('interrupt', 1)]), 'seed': rng.seed32(),
                    'lr': rng.choice([.01, .1, .5]), 'line': rng.randrange(5, 3000), 'std': rng.choice([1e-3, 1e-4]),
                    'which': rng.choice(['amp', 'phase', 'tap']), 'iters': rng.randrange(2, 7), 'given': rng.chance(.5), 'step': rng.choice([.02, .1])})
    return {'config': cfg, 'ops': ops}


def fd(f, xs, h=1e-5):
    """Central differences of f for a list of arrays; complex ones in JAX's convention (d/da - i d/db)."""
    out = []
    for i, x in enumerate(xs):
        g = np.zeros(x.shape, complex if np.iscomplexobj(x) else float)
        for j in range(x.size):
            for d in ((1, 1j) if np.iscomplexobj(x) else (1,)):
                v = []
                for s in (h, -h):
                    y = [a.copy() for a in xs]
                    y[i].flat[j] += s * d
                    v.append(f(*y))
                g.flat[j] += (v[0] - v[1]) / (2 * h) * (1 if d == 1 else -1j)
        out.append(g)
    return out


def run(plan, ctx):
    import jax
    import jax.numpy as jnp
    from ..seams import Interrupter
    cfg = plan['config']
    c = cfg['mesh']
    meshes, refs = [], []
    for a in range(cfg['layers']):
        ca = {**c, 'seed': c['seed'] + a}
        g = nprng(ca['seed'])
        m = make_mesh(ca)
        m, _, _ = draw_errors(g, m, c['errors'], .1, cfg['loss'])
        m.params = rand_params(g, m)
        meshes.append(m)
        refs.append(Nodes(m))
    n = meshes[0].n
    g = nprng(cfg['w'])
    sc = cfg['scale']
    shape = {'vector': (n,), 'wide': (n, 3), 'real': (n, 2), 'eye': (n, n)}[cfg['inputs']]
    x = g.normal(size=shape) * sc if cfg['inputs'] == 'real' else np.eye(n) * sc + 0j if cfg['inputs'] == 'eye' else (g.normal(size=shape) + 1j * g.normal(size=shape)) * sc
    k = shape[1] if len(shape) > 1 else 1
    w = g.normal(size=(n, k)) + 1j * g.normal(size=(n, k))

    def activation(y, xp):
        return y * xp.exp(-.3 * xp.abs(y / sc) ** 2)

    def cost(y, xp):
        return (xp.sum(w.real * xp.abs(y) ** 2) if cfg['cost'] == 'power' else xp.sum((w * y).real)) / sc

    def loss(*args):
        """Reference: args = parameters of all layers (3 each), then the inputs."""
        y = args[-1].reshape(n, -1)
        for a, r in enumerate(refs):
            y = r.matrix(args[3 * a:3 * a + 3]) @ y
            if a < len(refs) - 1:
                y = activation(y, np)
        return cost(y, np)
    fns = [m.in_situ_matrix_fn(all_analog=cfg['analog']) for m in meshes]
    if cfg['jit']:
        fns = [jax.jit(f) for f in fns]

    def network(params, x, fns=fns):
        y = x
        for a, f in enumerate(fns):
            y = f(params[a], y)
            y = y.reshape(n, -1)
            if a < len(fns) - 1:
                y = activation(y, jnp)
        return cost(y, jnp)
    vg = jax.value_and_grad(network, argnums=(0, 1))
    params = [tuple(np.array(p) for p in m.params) for m in meshes]
    keep = [tuple(p.copy() for p in q) for q in params]
    hist = []
    base = f'{c["kind"]} {c["style"]} n={n} layers={cfg["layers"]} analog={cfg["analog"]} jit={cfg["jit"]} errors={c["errors"]} loss={cfg["loss"]} inputs={cfg["inputs"]}'

    def flat(params):
        return [p for q in params for p in q]
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        g = nprng(op['seed'])
        kd = op['op']
        np.random.seed(op['seed'] % 2 ** 32)
        msg = f'{base} after {hist}'
        given = tuple(p.copy() for p in params[0])
        if kd == 'interrupt':
            it = Interrupter(op['line'], KeyboardInterrupt)
            try:
                with it:
                    vg([tuple(jnp.array(p) for p in q) for q in params], jnp.array(x))
            except KeyboardInterrupt:
                ctx.fault('interrupt')
            except Exception:  # noqa: interruptions inside of JAX arrive wrapped
                if not it.fired:
                    raise
                ctx.fault('interrupt')
        elif kd == 'reset':
            params = [rand_params(g, m, g.uniform() < .3) for m in meshes]
        elif kd in ('step', 'noise'):
            f = vg
            if kd == 'noise':
                nz = {'amp': dict(io_amp_error_std=op['std']), 'phase': dict(io_phase_error_std=op['std']), 'tap': dict(tap_pd_shot_noise=op['std'])}[op['which']]
                noisy = [m.in_situ_matrix_fn(all_analog=cfg['analog'], **nz) for m in meshes]
                f = jax.value_and_grad(lambda p, y: network(p, y, noisy), argnums=(0, 1))
                ctx.fault('noise')
            jp = [tuple(jnp.array(p) for p in q) for q in params]
            y = np.asarray((noisy if kd == 'noise' else fns)[0](jp[0], jnp.array(x)))
            want = refs[0].matrix(params[0]) @ x.reshape(n, -1)
            noise = op['std'] * 40 if kd == 'noise' else 0
            ctx.check(y.size == want.size, 'wrong-output', lambda: f'{msg}: outputs of shape {y.shape}')
            ctx.close(y.reshape(want.shape), want, 'wrong-output', tol=1e-5 + noise, scale=float(np.abs(want).max()), msg=f'{msg}: outputs')
            v, (gp, gx) = f(jp, jnp.array(x))
            args = flat(params) + [x]
            rv = loss(*args)
            mag = max(abs(rv), float(np.sum(np.abs(w))) * (sc if cfg['cost'] == 'power' else 1))
            ctx.close(float(v), rv, 'wrong-output', tol=1e-5 + noise, scale=mag, msg=f'{msg}: loss')
            want = fd(loss, args, h=1e-5)
            want[-1] = fd(lambda z: loss(*flat(params), z), [x], h=1e-5 * sc)[0]
            s = max(float(np.abs(a).max()) for a in want[:-1])
            s = max(s, 1e-2 * mag)
            for a, (got, ref) in enumerate(zip(flat(gp), want)):
                if cfg['loss']:  # the interference terms need time reversal
                    continue
                ctx.close(np.asarray(got), ref, 'wrong-gradient', tol=2e-4 + noise * 5, scale=s,
                          msg=f'{msg}: gradient of {("thetas", "phis", "gammas")[a % 3]} of layer {a // 3}')
            got = np.asarray(gx)
            ctx.check(got.shape == x.shape, 'wrong-gradient', lambda: f'{msg}: gradient of the inputs of shape {got.shape}')
            ctx.close(got, want[-1], 'wrong-gradient', tol=2e-4 + noise * 5, scale=max(float(np.abs(want[-1]).max()), 1e-2 * mag / sc), msg=f'{msg}: gradient of the inputs')
            if kd == 'step':
                params = [tuple(p - op['lr'] * np.asarray(d) / max(s, 1e-12) for p, d in zip(q, d_)) for q, d_ in zip(params, gp)]
                ctx.sim_time += 1
            else:
                kd = f'noise {op["which"]}'
        elif kd == 'layer':
            import haiku as hk
            from simphox.circuit.forward import InSituBackpropLayer
            mesh = make_mesh({**c, 'seed': c['seed']})
            mesh, _, _ = draw_errors(nprng(op['seed']), mesh, c['errors'], .1, 0)
            mesh.params = tuple(p.copy() for p in params[0])
            r = Nodes(mesh)
            xs = g.normal(size=(4, n)) + (0 if op['given'] else 1j * g.normal(size=(4, n)))
            ww = g.normal(size=(4, n))
            zero = op['seed'] % 3 == 0   # the default: start without output phases
            net = hk.without_apply_rng(hk.transform(lambda z: InSituBackpropLayer(mesh, activation=lambda y: jnp.abs(y) ** 2, all_analog=cfg['analog'],
                                                                                   use_jit=cfg['jit'], **({} if zero else {'set_gammas_zero': False}))(z)))
            hp = net.init(jax.random.PRNGKey(0), jnp.array(xs))
            names = ('theta', 'phi', 'gamma')
            leaf = {nm: np.asarray(d[nm]) for d in hp.values() for nm in d}
            ctx.check(set(leaf) == set(names), 'wrong-layer', lambda: f'{msg}: parameters {sorted(leaf)}')
            for nm, p in zip(names, params[0]):
                p = 0 * p if zero and nm == 'gamma' else p
                ctx.close(leaf[nm], p, 'wrong-layer', tol=1e-6, scale=6, msg=f'{msg}: initial {nm} of the layer')

            def rl(*p):
                return float(np.sum(ww * np.abs((r.matrix(p) @ xs.T).T) ** 2))
            v, gr = jax.value_and_grad(lambda hp: jnp.sum(ww * net.apply(hp, jnp.array(xs))))(hp)
            p0 = [np.asarray(leaf[nm], float) for nm in names]
            ctx.close(float(v), rl(*p0), 'wrong-output', tol=1e-5, scale=float(np.abs(ww).sum()) * 4, msg=f'{msg}: loss of the layer')
            want = fd(rl, p0)
            gl = {nm: np.asarray(d[nm]) for d in gr.values() for nm in d}
            s = max(max(float(np.abs(a).max()) for a in want), 1.)
            for nm, ref in zip(names, want):
                ctx.close(gl[nm], ref, 'wrong-gradient', tol=2e-4, scale=s, msg=f'{msg}: gradient of {nm} of the haiku layer')
        elif kd == 'opt':
            m = meshes[0]
            before = [p.copy() for p in m.params]
            u = unitary(g, n, 'random')
            start = rand_params(g, m) if op['given'] else None
            p0 = m.params if start is None else start
            state, update, get = m.matrix_opt(u, start, step_size=op['step'], use_jit=cfg['jit'])

            def err(*p):
                q = refs[0].matrix(p)
                return np.sqrt(1 - abs(np.trace(u.conj().T @ q)) ** 2 / abs(np.trace(q.conj().T @ q)) ** 2)
            vs = []
            for j in range(op['iters']):
                p = [np.asarray(a) for a in get(state)]
                if j == 0:
                    for a, b in zip(p, p0):
                        ctx.close(a, b, 'wrong-start', tol=1e-12, scale=6, msg=f'{msg}: start of matrix_opt')
                v, state = update(j, state)
                vs.append(float(v))
                ctx.close(float(v), err(*p), 'wrong-output', tol=1e-5, scale=1, msg=f'{msg}: error of step {j} of matrix_opt')
                gr = fd(lambda *z: err(*z), p) if j == 0 else None
                if gr:
                    for nm, a, b, d in zip(('thetas', 'phis', 'gammas'), p, get(state), gr):
                        ok = np.abs(d) > 1e-4
                        ctx.close((np.asarray(b) - a)[ok], -op['step'] * np.sign(d[ok]), 'wrong-gradient', tol=1e-3, scale=op['step'],
                                  msg=f'{msg}: first step of matrix_opt for {nm}')
                ctx.sim_time += 1
            for a, b in zip(m.params, before):
                ctx.same(a, b, 'mesh-changed', f'{msg}: phases of the mesh by matrix_opt')
        hist.append(kd)
        for m, q in zip(meshes, keep):
            for a, b in zip(m.params, q):
                ctx.same(a, b, 'mesh-changed', f'{msg} + {kd}: phases of the mesh')
        ctx.state(c['kind'], cfg['analog'], cfg['layers'], hist[-2:])
        ctx.log(kd, sig(params[0][0], 3))
