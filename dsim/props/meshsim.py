"""Simulated meshes: drawn architectures and fabrication errors, and an independent model of their light."""
import numpy as np

from ..core import nprng

STYLES = ['top', 'bottom', 'differential', 'symmetric']
TOL = 3e-6   # the errors of a mesh are stored in single precision


def unitary(g, n, kind='random'):
    """Target matrices, also the special ones."""
    q, r = np.linalg.qr(g.normal(size=(n, n)) + 1j * g.normal(size=(n, n)))
    u = q * (np.diag(r) / np.abs(np.diag(r)))
    if kind == 'permutation':
        u = np.eye(n)[g.permutation(n)] + 0j
    elif kind == 'identity':
        u = np.eye(n) + 0j
    elif kind == 'diagonal':
        u = np.diag(np.exp(2j * np.pi * g.uniform(size=n)))
    elif kind == 'real':
        u = np.linalg.qr(g.normal(size=(n, n)))[0] + 0j
    elif kind == 'block':
        m = n // 2
        v = np.zeros((n, n), complex)
        v[:m, :m], v[m:, m:] = unitary(g, m) if m else 0, unitary(g, n - m)
        u = v
    elif kind == 'near':   # splits close to the bar and cross states
        h = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
        a = 10 ** g.uniform(-5, -1)
        w, v = np.linalg.eigh(h + h.conj().T)
        u = np.eye(n)[g.permutation(n)] @ (v * np.exp(1j * a * w)) @ v.conj().T
    elif kind == 'dft':
        u = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) / np.sqrt(n)
    return u


class Nodes:
    """What light meets: copies of the public attributes of the nodes of a mesh, taken when looked at."""

    def __init__(self, mesh, errors=None, losses=None):
        self.style, self.n = str(getattr(mesh.phase_style, 'value', mesh.phase_style)), mesh.n
        nodes = list(mesh.nodes)
        self.nodes = []
        for i, nd in enumerate(nodes):
            e = nd.bs_error if np.ndim(nd.bs_error) else (nd.bs_error, nd.bs_error)
            self.nodes.append((int(nd.column), i, int(nd.node_id), int(nd.top), int(nd.bottom),
                               tuple(map(float, e if errors is None else errors[i])),
                               tuple(map(float, nd.loss if losses is None else losses[i]))))
        self.nodes.sort(key=lambda t: t[:2])
        self.columns = sorted({t[0] for t in self.nodes})

    def stages(self, nd, th, ph):
        """The 2 x 2 matrices light goes through in a node, in order."""
        e, loss = nd[5], nd[6]
        lc, rc = [np.array([[np.cos(np.pi / 4 + x), 1j * np.sin(np.pi / 4 + x)], [1j * np.sin(np.pi / 4 + x), np.cos(np.pi / 4 + x)]]) for x in e]
        lt, lp = 10 ** (loss[0] / 20), 10 ** (loss[1] / 20)
        t, p = th[nd[2]], ph[nd[2]]
        et, ep = np.exp(1j * t) * lt, np.exp(1j * p) * lp
        if self.style == 'top':
            return [np.diag([ep, 1]), lc, np.diag([et, 1]), rc]
        if self.style == 'bottom':
            return [np.diag([1, ep]), lc, np.diag([1, et]), rc]
        common = np.exp(-.5j * t) * lp
        if self.style == 'symmetric':
            return [np.diag([np.exp(1j * p) * common] * 2), lc, np.diag([et, 1]), rc]
        return [np.diag([np.exp(-.5j * p) * common, np.exp(.5j * p) * common]), lc, np.diag([et, 1]), rc]

    def column(self, col, params, stage=None):
        m = np.eye(self.n, dtype=complex)
        for nd in self.nodes:
            if nd[0] == col:
                s = self.stages(nd, *params[:2])
                if stage is None:
                    b = s[3] @ s[2] @ s[1] @ s[0]
                else:
                    b = s[stage]
                m[np.ix_([nd[3], nd[4]], [nd[3], nd[4]])] = b
        return m

    def matrix(self, params, back=False):
        u = np.eye(self.n, dtype=complex)
        for c in self.columns:
            u = self.column(c, params) @ u
        u = np.exp(1j * np.asarray(params[2]))[:, None] * u
        return u.T if back else u

    def fields(self, params, inputs, back=False, explicit=True):
        """Fields before, after each stage (or column) and after the output phases."""
        out = [np.asarray(inputs) + 0j]
        g = np.exp(1j * np.asarray(params[2]))[:, None]
        if back:
            out.append(g * out[-1])
        for c in (self.columns[::-1] if back else self.columns):
            for s in ((3, 2, 1, 0) if back else (0, 1, 2, 3)) if explicit else (None,):
                m = self.column(c, params, s)
                out.append((m.T if back else m) @ out[-1])
        if not back:
            out.append(g * out[-1])
        return np.array(out)

    def feasible(self, v, nd):
        """Whether a node can null one of its outputs for these inputs: how far the split is from saturation."""


def draw_mesh(rng, nmax=7, styles=STYLES):
    kind = rng.choice(['tree', 'tree', 'chain', 'butterfly', 'triangular', 'triangular', 'tree_cascade', 'rectangular', 'rectangular', 'custom', 'stack'])
    n = rng.choice([2, 4, 8]) if kind == 'butterfly' else rng.randrange(2, nmax + 1)
    if nmax > 4 and rng.chance(.06):   # a few large ones
        n = 16 if kind == 'butterfly' else rng.randrange(9, 21)
    return {'kind': kind, 'n': n, 'style': 'top' if kind in ('butterfly', 'rectangular') else rng.choice(styles),
            'rails': rng.choice([0, 0, 1, 2]), 'seed': rng.seed32(), 'u': rng.choice(['random', 'random', 'permutation', 'identity', 'real', 'block', 'dft', 'near']),
            'errors': rng.choice(['none', 'equal', 'unequal', 'unequal']), 'loss': rng.choice([0, 0, .3])}


def make_mesh(c):
    """Builds the mesh of a configuration. Returns the mesh without errors."""
    from simphox.circuit import CouplingNode, ForwardMesh, rectangular, tree_cascade, triangular
    from simphox.circuit.vector import butterfly, tree
    g = nprng(c['seed'])
    np.random.seed(c['seed'] % 2 ** 32)
    k, n, style = c['kind'], c['n'], c['style']
    if k in ('tree', 'chain'):
        return tree(n, n + c['rails'], balanced=k == 'tree', phase_style=style)
    if k == 'butterfly':
        return butterfly(n, n + c['rails'])
    if k == 'rectangular':
        return rectangular(unitary(g, n, c['u']))
    if k in ('triangular', 'tree_cascade'):
        f = {'triangular': triangular, 'tree_cascade': tree_cascade}[k]
        return f(unitary(g, n, c['u']), phase_style='top' if style == 'symmetric' else style)
    if k == 'stack':   # two trees one after another
        m = max(n, 2)
        a, b = tree(m, phase_style=style), tree(m, balanced=False, phase_style=style)
        b.offset(a.num_nodes).offset_column(a.num_columns)
        return ForwardMesh.aggregate([a, b], style)
    nodes, ncol = [], g.randint(1, 5)
    for col in range(ncol):
        rails = list(g.permutation(n))
        for _ in range(g.randint(1, n // 2 + 1)):
            a, b = rails.pop(), rails.pop()
            nodes.append((col, int(a), int(b)))
    ids = list(g.permutation(len(nodes))) if len(nodes) > 1 else [0]
    order = list(g.permutation(len(nodes)))
    return ForwardMesh([CouplingNode(node_id=int(ids[i]), top=nodes[i][1], bottom=nodes[i][2], n=n, column=nodes[i][0],
                                     alpha=1, beta=1) for i in order], style)


def draw_errors(g, mesh, kind, std, loss):
    """Mesh with fabrication errors (a new mesh)."""
    nn = mesh.num_nodes
    e = g.normal(0, std, (nn, 2)) if kind == 'unequal' else np.repeat(g.normal(0, std, (nn, 1)), 2, axis=1) if kind == 'equal' else np.zeros((nn, 2))
    le = -np.abs(g.normal(0, loss, (nn, 2))) if loss else np.zeros((nn, 2))
    if kind == 'none' and not loss:
        return mesh, e, le
    return mesh.add_error_mean(e, le), e, le


def rand_params(g, mesh, special=False):
    t, p, q = mesh.thetas.size, mesh.phis.size, mesh.gammas.size
    if special:
        return tuple(np.pi / 2 * g.randint(0, 5, s).astype(float) for s in (t, p, q))
    return g.uniform(0, np.pi, t), g.uniform(0, 2 * np.pi, p), g.uniform(0, 2 * np.pi, q)
