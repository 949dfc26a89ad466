"""Simulated inverse-design sessions and their reference: a dense differentiable FDFD and Adam, independent of simphox."""
import numpy as np

from ..core import nprng
from ..ref import RefGrid, RefPorts

D, SHAPE = .1, (16, 12)
SIZE = (1.6, 1.2)
PORTS = {'a0': (.3, .6, 180, .3, 0, 0), 'b0': (1.3, .6, 0, .3, 0, 0), 't0': (.8, .9, 90, .3, 0, 0)}
REGION = (slice(6, 10), slice(4, 8))
DS = (4, 4)  # shape of the design
METRICS = ['thru', 'back', 'total']


def draw_sims(rng):
    return [{'seed': rng.seed32(), 'wl': rng.choice([1.3, 1.45, 1.55]), 'ports': rng.choice([['a0', 'b0'], ['b0', 'a0'], ['a0', 'b0', 't0'], ['t0', 'a0', 'b0']]),
             'name': rng.choice(['fdfd', f'dev{i}', f'dev{i}'])} for i in range(rng.choice([1, 2, 2]))]


def draw_problems(rng, sims):
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        i = rng.randrange(len(sims))
        names = sims[i]['ports']
        kind = rng.weighted([('sim', 6), ('plain', 1.5), ('nosource', 1)])
        out.append({'kind': kind, 'sim': i, 'source': rng.choice(names), 'target': rng.sample(names, rng.choice([1, 1, 2])),
                    'insertion': rng.choice([0, 0, .3]), 'cost': rng.choice(['fidelity', 'fidelity', 'power', 'fields']),
                    'tf': rng.choice(['linear', 'linear', 'tanh']), 'metrics': rng.weighted([('all', 3), ('some', 1), (None, 1)]),
                    'w': round(rng.uniform(.5, 2), 2)})
    # problems which share a simulation share the transform, as its permittivity can be recorded only once
    tf = {}
    for p in out:
        p['tf'] = tf.setdefault(p['sim'], p['tf'])
    return out


def draw_run(rng, problems, faults):
    op = {'iters': rng.randrange(1, 7), 'step': rng.choice([.05, .1, .3, 1.]), 'metric': rng.choice([0, 1, 1, 2, 3]),
          'eps': rng.choice([0, 0, 1, 2]), 'field': rng.choice([0, 0, 1, 2, 3]), 'pbar': rng.choice([None, 'gen', 'tqdm']),
          'viz': rng.choice([0, 0, 1, 2]), 'seed': rng.seed32(), 'single': rng.chance(.5), 'fault': None}
    if faults:
        op['fault'] = rng.choice([{'kind': k, 'at': rng.randrange(0, op['iters']), 'line': rng.randrange(10, 4000),
                                   'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'RuntimeError'])}
                                  for k in ('pbar', 'pipe', 'metrics', 'line', 'line', 'native', 'native', 'cost')])
    return op


def base_eps(seed):
    g = nprng(seed)
    e = g.uniform(1, 1.4, SHAPE)
    e[:, 4:8] += 7 + g.uniform(0, 2)
    e[6:10, 7:] += 6
    return e


def weights_of(names, p):
    s = np.zeros(len(names), complex)
    for i, n in enumerate(p['target']):
        s[names.index(n)] = (1, .6)[i]
    return s / np.linalg.norm(s)


class RefSim:
    """Dense S-parameters as a differentiable function of the permittivity."""

    def __init__(self, c, modes=None):
        import jax.numpy as jnp
        self.c, self.names, self.wl = c, list(c['ports']), c['wl']
        self.eps0 = base_eps(c['seed'])
        ports = {n: PORTS[n] for n in self.names}
        self.ports = RefPorts(SIZE, D, self.eps0, ports, self.wl)
        g = RefGrid(SIZE, D, self.eps0, self.wl)
        self.k0 = g.k0
        self.f = [np.asarray(g._diff_mat(ax, False).todense()) for ax in range(2)]
        self.b = [np.asarray(g._diff_mat(ax, True).todense()) for ax in range(2)]
        self.jnp = jnp

    def guided(self):
        return all(len(self.ports.modes(n).betas) >= 1 and abs(self.ports.modes(n).modes[0][0]) > 1e-5 for n in self.names)

    def adopt(self, sim):
        """Takes the phases of the modes from the simulation."""
        pm = sim.port_modes()
        for n in self.names:
            self.ports.modes(n).modes[0] = np.asarray(pm[n].io.modes[0])

    def build(self):
        """Measurement rows and sources (after adopt)."""
        jnp = self.jnp
        nf = 6 * int(np.prod(SHAPE))
        self.rows = np.zeros((2, len(self.names), nf), complex)
        basis = np.zeros((2, 3) + SHAPE + (1,), complex)
        for i, n in enumerate(self.names):
            r, _ = self.ports.region(n)
            cells = np.zeros(SHAPE + (1,), bool)
            cells[r] = True
            idx = np.flatnonzero(np.broadcast_to(cells, basis.shape))
            for j in idx:
                basis.flat[j] = 1
                m = self.ports.measure(basis, [(n, 0)])
                basis.flat[j] = 1j  # linear, not antilinear
                self.rows[:, i, j] = m[:, 0]
                basis.flat[j] = 0
        self.src = {n: jnp.array(self.ports.source2d({(n, 0): 1}).ravel()) for n in self.names}
        self.jrows = jnp.array(self.rows)

    def fields(self, eps, source):
        jnp = self.jnp
        eps = eps.reshape(SHAPE)
        ex = (eps + jnp.roll(eps, 1, 1)) / 2
        ey = (eps + jnp.roll(eps, 1, 0)) / 2
        a = -self.b[0] @ (self.f[0] / ey.reshape(-1, 1)) - self.b[1] @ (self.f[1] / ex.reshape(-1, 1)) \
            - self.k0 ** 2 * np.eye(ex.size)
        hz = jnp.linalg.solve(a.astype(complex), self.k0 * self.src[source])
        o = jnp.zeros(hz.size, complex)
        e = jnp.stack([self.b[1] @ hz / ex.ravel(), -self.b[0] @ hz / ey.ravel(), o]) / (1j * self.k0)
        return jnp.stack([e, jnp.stack([o, o, hz])]).reshape((2, 3) + SHAPE + (1,))

    def sparams(self, eps, source):
        f = self.fields(eps, source)
        out = self.jrows @ f.ravel()
        return out[0] / out[1, self.names.index(source)], f


def transform(kind, base, jnp):
    """Design (4 x 4) -> permittivity."""
    base = jnp.array(base)
    if kind == 'linear':
        return lambda rho: base.at[REGION].add(rho)
    return lambda rho: base.at[REGION].add(3 * jnp.tanh(rho))


def cost_of(p, names, jnp, s=None):
    """(sparams, fields) or permittivity -> (cost, aux), from the definition of the problem."""
    if p['kind'] != 'sim':
        return lambda eps: (jnp.mean((eps[REGION] - 5.) ** 2) * .01 * p['w'], eps)
    s = jnp.array(weights_of(names, p))

    def fidelity(sf):
        sp, f = sf
        w = p['insertion']
        if w:
            n = jnp.linalg.norm(sp)
            return -jnp.abs(s @ (sp / n)) ** 2 * (1 - w) - n ** 2 * w, (sp, f)
        return -jnp.abs(s @ sp) ** 2, (sp, f)

    def power(sf):
        sp, f = sf
        return p['w'] * jnp.sum(jnp.abs(sp) ** 2 * jnp.abs(s)), (sp, f)

    def fields(sf):
        sp, f = sf
        return p['w'] * jnp.sum(jnp.abs(f[1][2][3:5]) ** 2) / 50 + jnp.abs(sp[0]), (sp, f)
    return {'fidelity': fidelity, 'power': power, 'fields': fields}[p['cost']]


def metric_values(p, sp):
    pw = np.abs(np.asarray(sp)) ** 2
    vals = {'thru': float(pw[-1]), 'back': float(pw[0]), 'total': float(np.sum(pw))}
    return vals if p['metrics'] == 'all' else {'thru': vals['thru']}


def reference(problems, rsims, bases, init, iters, step):
    """Costs, parameters and results of each iteration: Adam on the mean of the costs."""
    import jax
    import jax.numpy as jnp
    tfs = [transform(p['tf'], bases[p['sim']], jnp) for p in problems]
    costs = [cost_of(p, rsims[p['sim']].names, jnp) for p in problems]

    def objective(rho):
        total, aux = 0., []
        for p, tf, c in zip(problems, tfs, costs):
            eps = tf(rho)
            v, a = c(rsims[p['sim']].sparams(eps, p['source']) if p['kind'] == 'sim' else eps)
            total = total + v
            aux.append((eps, a))
        return total / len(problems), aux
    vg = jax.value_and_grad(objective, has_aux=True)
    x = np.array(init, float)
    m, v = np.zeros_like(x), np.zeros_like(x)
    hist, grads = [], []
    for i in range(iters):
        (c, aux), g = vg(jnp.array(x))
        g = np.asarray(g)
        hist.append((x.copy(), float(c), jax.tree_util.tree_map(np.asarray, aux)))
        grads.append(g)
        m, v = .1 * g + .9 * m, .001 * g ** 2 + .999 * v
        x = x - step * (m / (1 - .9 ** (i + 1))) / (np.sqrt(v / (1 - .999 ** (i + 1))) + 1e-8)
    # entries whose gradient is at rounding level are moved by Adam as far as the others: not predictable
    gs = np.abs(np.array(grads))
    sound = iters == 0 or float(np.min(gs[0])) > 1e-9 or not np.any(gs)
    return hist, x, [tf for tf in tfs], sound


class Pipe:
    def __init__(self, log, name, hook=None):
        self.log, self.name, self.hook = log, name, hook

    def send(self, x):
        if self.hook:
            self.hook(self.name)
        self.log.append((self.name, np.array(x, dtype=float) if np.ndim(x) else x))


class Bar:
    """tqdm-like."""

    def __init__(self, it, log, hook):
        self.it, self.log, self.hook = it, log, hook

    def __iter__(self):
        for j, x in enumerate(self.it):
            if self.hook:
                self.hook(j)
            self.log.append(('pbar', j))
            yield x

    def set_description(self, s):
        self.log.append(('description', s))
