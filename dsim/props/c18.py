"""C18: what a mesh does to light is the product of its nodes as they are, through any history of edits."""
import numpy as np

from ..core import nprng, sig
from .meshsim import Nodes, TOL, draw_errors, draw_mesh, make_mesh, rand_params

ID = 'C18'
TITLE = 'The mesh matrix is the product of its nodes through any history of edits'
LEVEL = 'exploration'
RUNS = {'quick': 220, 'thorough': 20000}
TIME_UNIT = 'columns propagated'
NOTE = 'Seeded search over architectures, errors, edit histories, ways of evaluation and interruptions; not exhaustive.'
RULE = ('one mesh of a drawn architecture, size, phase style, coupler errors and losses, and 3-8 operations: setting or editing '
        'phases, adding errors (a new mesh), forward and backward matrices, propagation with and without couplers, NumPy '
        'and JAX, earlier matrix functions with new phases, columns, inverted columns, interrupted evaluations.')
STATE = 'hash of (architecture, style, errors, last two operations)'
REAL = ['simphox.circuit.forward', 'simphox.circuit.vector', 'simphox.circuit.matrix', 'simphox.circuit.rectangular', 'simphox.circuit.coupling', 'JAX']
STUB = ['global NumPy random state (seeded)']
ASSUMES = ['node_ids are unique within a mesh', 'matrix and propagation functions keep the errors they were built with',
           'explicit propagation is for the phase styles top and bottom', 'errors are stored in single precision']
PROPERTY = {
    'statement': 'Whatever was done to a mesh before, its matrix is the product, column by column, of its nodes (couplers '
                 'with their errors, phase shifters and losses in the arms of the phase style, phases by node_id) and of '
                 'the output phases; sending light backward gives the transpose; propagation shows the fields after every '
                 'step of this product and ends with the matrix times the inputs; NumPy, JAX, functions built earlier '
                 'and meshes of its columns agree. Evaluation changes neither mesh, parameters nor inputs, and a mesh '
                 'with added errors and its original do not influence each other; phases with errors are the phases plus errors in '
                 'proportion; the matrices of a node by itself (MZI, coupler, tunable coupler, ideal) have its errors.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories', 'crash_points'],
                   'text': 'all architectures, sizes, phase styles, errors, losses, phases, inputs and histories of edits'},
    'why_tests_cant': 'Tests compare meshes that simphox programmed, mostly without errors; indexing mistakes show only '
                      'with unequal errors, losses, permuted node_ids, or after edits.',
    'anchors': {
        'files': ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py', 'simphox/circuit/vector.py', 'simphox/circuit/matrix.py'],
        'state': [{'name': 'mesh', 'meaning': 'nodes, errors and phases', 'where': 'simphox/circuit/forward.py ForwardMesh'}],
        'mechanism': [{'name': 'matrix', 'where': 'simphox/circuit/forward.py matrix_fn'},
                      {'name': 'propagation', 'where': 'simphox/circuit/forward.py propagate_matrix_fn'}],
        'observe_at': ['matrix, matrix_fn, propagate, propagate_matrix_fn, columns'],
        'hook_needed': None},
}


def setup():
    import simphox.circuit, simphox.circuit.vector  # noqa


def gen(rng, tier):
    c = draw_mesh(rng)
    ops = []
    for _ in range(rng.randrange(3, 9)):
        k = rng.weighted([('params', 3), ('edit', 1), ('errors', 2), ('variance', 1), ('matrix', 4), ('propagate', 3),
                          ('old', 1), ('columns', 1), ('interrupt', 1), ('swap', 1), ('invert', .7), ('shift', .7), ('phases', 1), ('nodes', .8)])
        ops.append({'op': k, 'seed': rng.seed32(), 'jax': rng.chance(.3), 'back': rng.chance(.4), 'explicit': rng.chance(.6),
                    'inputs': rng.choice(['default', 'vector', 'column', 'real', 'wide']), 'special': rng.chance(.2),
                    'params': rng.choice(['own', 'own', 'given']), 'std': rng.choice([.02, .1, .4]), 'loss': rng.choice([0, .2, 1.]),
                    'kind': rng.choice(['equal', 'unequal', 'scalar']), 'line': rng.randrange(3, 300)})
    ops += [{**ops[0], 'op': 'matrix', 'jax': False, 'params': 'own', 'inputs': 'default', 'back': b} for b in (False, True)]
    return {'config': c, 'ops': ops}


def draw_inputs(g, kind, n):
    return {'default': lambda: None, 'vector': lambda: g.normal(size=n) + 1j * g.normal(size=n),
            'column': lambda: g.normal(size=(n, 1)) + 1j * g.normal(size=(n, 1)), 'real': lambda: g.normal(size=(n, 2)),
            'wide': lambda: g.normal(size=(n, n + 2)) + 1j * g.normal(size=(n, n + 2))}[kind]()


class World:
    """A mesh together with the errors and phases it must have."""

    def __init__(self, mesh, errors, losses, params):
        self.mesh, self.e, self.l, self.p = mesh, errors, losses, params

    def ref(self):
        return Nodes(self.mesh, self.e, self.l)


def run(plan, ctx):
    from ..seams import Interrupter
    c = plan['config']
    g = nprng(c['seed'] + 1)
    mesh = make_mesh(c)
    mesh, e, l = draw_errors(g, mesh, c['errors'], .15, c['loss'])
    w = World(mesh, e, l, tuple(np.array(x) for x in mesh.params))
    worlds, old, hist = [w], [], []
    n = mesh.n

    def same_params(w, msg):
        for a, b, nm in zip(w.mesh.params, w.p, ('thetas', 'phis', 'gammas')):
            ctx.close(a, b, 'params-changed', tol=1e-12, scale=1, msg=f'{msg}: {nm}')

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k = op['op']
        g = nprng(op['seed'])
        mesh = w.mesh
        msg = f'{c["kind"]} {c["style"]} n={n} errors={c["errors"]} after {hist}'
        ref = w.ref()
        given = rand_params(g, mesh, op['special'])
        p = given if op['params'] == 'given' else w.p
        keep = tuple(x.copy() for x in p)
        x = draw_inputs(g, op['inputs'], n)
        xk = None if x is None else x.copy()
        xin = np.eye(n) if x is None else x.reshape(n, -1)
        if k == 'params':
            mine = tuple(a.copy() for a in given)
            mesh.params = mine
            for a in mine:
                a[...] = -7   # the caller's arrays are the caller's
            w.p = tuple(a.copy() for a in given)
            for a in mesh.params:
                a[...] = 9    # and those it returns too
        elif k == 'edit':
            j = g.randint(mesh.thetas.size)
            mesh.thetas[j], mesh.phis[j] = given[0][j], given[1][j]
            mesh.gammas = given[2].copy()
            t, q = w.p[0].copy(), w.p[1].copy()
            t[j], q[j] = given[0][j], given[1][j]
            w.p = t, q, given[2].copy()
        elif k in ('errors', 'variance'):
            nn = mesh.num_nodes
            np.random.seed(op['seed'] % 2 ** 32)
            if k == 'variance':
                new = mesh.add_error_variance(op['std'], op['loss'] / 3, equal_splitter_error=op['kind'] == 'equal')
                ne, nl = [np.array([getattr(nd, a) for nd in new.nodes], float).reshape(nn, 2) for a in ('bs_error', 'loss')]
                d = ne - w.e
                ctx.check(np.all(np.abs(d) < 8 * op['std']) and np.any(d != 0), 'wrong-errors', f'{msg}: errors of the variance')
                if op['kind'] == 'equal':
                    ctx.close(d[:, 0], d[:, 1], 'wrong-errors', tol=1e-9, scale=1, msg=f'{msg}: unequal coupler errors')
            elif op['kind'] == 'scalar':
                ne, nl = np.full((nn, 2), op['std']), np.full((nn, 2), -op['loss'])
                if op['back']:   # different couplers on both sides
                    ne[:, 1] = -2 * op['std']
                    new = mesh.add_error_mean(op['std'], -op['loss'], -2 * op['std'])
                else:
                    new = mesh.add_error_mean(op['std'], -op['loss'])
            else:
                ne = g.normal(0, op['std'], (nn, 2)) if op['kind'] == 'unequal' else np.repeat(g.normal(0, op['std'], (nn, 1)), 2, 1)
                nl = -np.abs(g.normal(0, op['loss'], (nn, 2)))
                new = mesh.add_error_mean(ne[:, 0].copy(), nl.copy(), error_right=ne[:, 1].copy()) if op['back'] and op['kind'] == 'unequal' \
                    else mesh.add_error_mean(ne.copy(), nl.copy())
            nw = World(new, ne, nl, tuple(a.copy() for a in w.p))
            same_params(nw, f'{msg}: mesh with errors')
            worlds.append(nw)
            w = nw
        elif k == 'swap':
            w = worlds[g.randint(len(worlds))]
        elif k == 'invert':   # light now meets the columns in the opposite order
            mesh.invert_columns()
        elif k == 'shift':   # other labels, the same order
            mesh.offset_column(1 + op['seed'] % 3)
        elif k == 'phases':   # phases with errors, for evaluations: the mesh keeps its own
            def erroneous(x, **kw):
                np.random.seed(op['seed'] % 2 ** 32)
                return [np.asarray(a) for a in mesh.phases(x, **kw)]
            for a, b in zip(erroneous(0), w.p):
                ctx.close(a, b, 'wrong-phases', tol=1e-12, scale=1, msg=f'{msg}: phases without error')
            for a, b, nm in zip(erroneous(.3, constant=True, gamma_error=op['back']), w.p, ('thetas', 'phis', 'gammas')):
                ctx.close(a - b, np.full(b.shape, .3 if nm != 'gammas' or op['back'] else 0.), 'wrong-phases', tol=1e-12, scale=1, msg=f'{msg}: constant error of {nm}')
            for a, b, d, nm in zip(erroneous(.01, gamma_error=op['back']), erroneous(.02, gamma_error=op['back']), w.p, ('thetas', 'phis', 'gammas')):
                ctx.close(b - d, 2 * (a - d), 'wrong-phases', tol=1e-9, scale=1, msg=f'{msg}: random error of {nm}')
                ctx.check(np.all(np.abs(a - d) < .08) and (bool(np.any(a != d)) == (nm != 'gammas' or op['back'])), 'wrong-phases', f'{msg}: size of the error of {nm}')
        elif k == 'matrix':
            want = ref.matrix(p, op['back']) @ xin
            if x is None and op['params'] == 'own' and not op['jax']:
                got = mesh.matrix(back=op['back'])
            elif x is None and not op['jax']:
                got = mesh.matrix(p, back=op['back'])
            else:
                f = mesh.matrix_fn(use_jax=op['jax'], back=op['back'])
                got = f(p) if x is None else f(p, x)
            got = np.asarray(got)
            ctx.check(got.shape == want.shape, 'wrong-matrix', lambda: f'{msg}: shape {got.shape} for {want.shape}')
            ctx.close(got, want, 'wrong-matrix', tol=TOL, scale=1 + float(np.abs(want).max()), msg=f'{msg}: '
                      f'{"backward " if op["back"] else ""}matrix ({"JAX" if op["jax"] else "NumPy"}, inputs {op["inputs"]})')
            ctx.sim_time += len(ref.columns)
        elif k == 'propagate':
            explicit = op['explicit'] and c['style'] in ('top', 'bottom')
            want = ref.fields(p, xin, op['back'], explicit)
            f = mesh.propagate_matrix_fn(back=op['back'], explicit=explicit, use_jax=op['jax'])
            if op['params'] == 'own' and x is not None and not op['jax']:
                got = mesh.propagate(x, back=op['back'], explicit=explicit)
            else:
                got = f(p) if x is None else f(p, x)
            got = np.asarray(got)
            ctx.check(got.size == want.size and len(got) == len(want), 'wrong-fields',
                      lambda: f'{msg}: fields of shape {got.shape} for {want.shape}')
            ctx.close(got.reshape(want.shape), want, 'wrong-fields', tol=TOL, scale=1 + float(np.abs(want).max()),
                      msg=f'{msg}: fields {"backward" if op["back"] else "forward"} ({"JAX" if op["jax"] else "NumPy"}, explicit {explicit})')
            ctx.sim_time += len(ref.columns)
        elif k == 'old':   # functions built now, used later with the phases of then
            old.append((mesh.matrix_fn(use_jax=op['jax'], back=op['back']), op['back'], ref))
        elif k == 'columns':
            u = np.eye(n, dtype=complex)
            for nc in mesh.columns:
                q = Nodes(nc)
                ctx.check(len(q.columns) == 1, 'wrong-columns', f'{msg}: a column with nodes of {len(q.columns)} columns')
                u = q.column(q.columns[0], w.p) @ u
            ctx.close(np.exp(1j * w.p[2])[:, None] * u, ref.matrix(w.p), 'wrong-columns', tol=1e-9, msg=f'{msg}: product of the columns')
            o = mesh.column_ordered
            o.params = w.p
            ctx.close(o.matrix(), ref.matrix(w.p), 'wrong-matrix', tol=TOL, scale=2, msg=f'{msg}: column ordered mesh')
        elif k == 'interrupt':
            it = Interrupter(op['line'], KeyboardInterrupt)
            try:
                with it:
                    if op['explicit'] and c['style'] in ('top', 'bottom'):
                        mesh.propagate(np.eye(n), back=op['back'])
                    else:
                        mesh.matrix(back=op['back'])
                    mesh.add_error_mean(.1, 0)
            except KeyboardInterrupt:
                ctx.fault('interrupt')
        elif k == 'nodes' and c['style'] == 'top' and not np.any(w.l):   # the nodes by themselves
            u = np.eye(n, dtype=complex)
            for nd in sorted(mesh.nodes, key=lambda d: d.column):
                u = nd.mzi_node_matrix(w.p[0][nd.node_id], w.p[1][nd.node_id]) @ u
                el, er = nd.bs_error
                want = [f(np.pi / 4 + er) * h(np.pi / 4 + el) for f in (np.cos, np.sin) for h in (np.cos, np.sin)]
                ctx.close(nd.mzi_terms, want, 'wrong-node', tol=1e-12, scale=1, msg=f'{msg}: terms of node {nd.node_id}')
                # its parts: couplers, tunable coupler (with the error of its one coupler), phase shifters, ideal node, nullification
                for r, e in ((False, el), (True, er)):
                    d = np.array([[np.cos(np.pi / 4 + e), 1j * np.sin(np.pi / 4 + e)], [1j * np.sin(np.pi / 4 + e), np.cos(np.pi / 4 + e)]])
                    ctx.close(nd.dc(right=r), d, 'wrong-node', tol=1e-9, scale=1, msg=f'{msg}: coupler of node {nd.node_id}')
                th, ph = g.uniform(0, np.pi), g.uniform(0, 2 * np.pi)
                m2 = nd.mmi_node_matrix(th, ph, embed=False)
                ctx.close(m2 @ m2.conj().T, np.eye(2), 'wrong-node', tol=1e-9, scale=1, msg=f'{msg}: tunable coupler of node {nd.node_id} times its adjoint')
                if el == er:
                    ctx.close(abs(m2), np.abs([[np.cos((th + el) / 2), np.sin((th + el) / 2)], [np.sin((th + el) / 2), np.cos((th + el) / 2)]]),
                              'wrong-node', tol=1e-9, scale=1, msg=f'{msg}: tunable coupler of node {nd.node_id}')
                pm = np.ones(n, dtype=complex)
                pm[nd.top], pm[nd.bottom] = np.exp(1j * th), np.exp(1j * ph)
                ctx.close(nd.phase_matrix(th, ph), np.diag(pm), 'wrong-node', tol=1e-9, scale=1, msg=f'{msg}: phase shifters of node {nd.node_id}')
                s = g.uniform(0, 1)
                i2 = nd.ideal_node(s, ph)
                ctx.close(i2 @ i2.conj().T, np.eye(n), 'wrong-node', tol=1e-9, scale=1, msg=f'{msg}: ideal node {nd.node_id} times its adjoint')
                ctx.close(abs(i2[[nd.bottom, nd.top], [nd.top, nd.bottom]]) ** 2, np.array([s, s]), 'wrong-node', tol=1e-9, scale=1,
                          msg=f'{msg}: crossing of ideal node {nd.node_id}')
            ctx.close(np.exp(1j * w.p[2])[:, None] * u, ref.matrix(w.p), 'wrong-node', tol=1e-9, msg=f'{msg}: product of the matrices of the nodes')
        if old:
            f, back, r = old[g.randint(len(old))]
            ctx.close(np.asarray(f(given)), r.matrix(given, back), 'wrong-matrix', tol=TOL, scale=2, msg=f'{msg}: function built earlier')
        # nothing but the edits changed anything
        if x is not None:
            ctx.same(x, xk, 'inputs-changed', msg)
        for a, b in zip(p, keep):
            if op['params'] == 'given':
                ctx.same(a, b, 'params-changed', f'{msg}: given parameters')
        for j, v in enumerate(worlds):
            same_params(v, f'{msg} + {k}: mesh {j}')
        for v in [w, worlds[0]]:
            now = Nodes(v.mesh)
            for a, b in zip(now.nodes, v.ref().nodes):
                ctx.close(np.array([a[5], a[6]]), np.array([b[5], b[6]]), 'errors-changed', tol=1e-9, scale=1, msg=f'{msg} + {k}: errors of node {a[2]}')
        hist.append(k)
        ctx.state(c['kind'], c['style'], c['errors'], hist[-2:])
        ctx.log(k, sig(w.p[0], 6))
