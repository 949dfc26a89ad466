"""C25: meshes have the structure of their architecture, from creation through any history."""
import copy
from unittest import mock

import numpy as np

from ..core import nprng, sig
from .meshsim import Nodes, TOL, unitary

ID = 'C25'
TITLE = 'Meshes keep the structure of their architecture through any history'
LEVEL = 'exploration'
RUNS = {'quick': 500, 'thorough': 20000}
TIME_UNIT = 'operations'
NOTE = 'Seeded search over architectures, sizes, histories of structural edits, random sources and interruptions; not exhaustive.'
RULE = ('2-4 meshes (balanced trees, chains, butterflies, triangular, rectangular and tree cascade meshes, with spectator rails) and 4-14 operations: '
        'offsets of ids and columns, inverted columns, aggregation with gaps, columns, column order, added errors, copies, programming of '
        'vectors, Hessians, random splits (controlled or seeded random source), interrupted evaluations.')
STATE = 'hash of (architecture, size, last three operations)'
REAL = ['simphox.circuit.forward', 'simphox.circuit.vector', 'simphox.circuit.matrix', 'simphox.circuit.rectangular', 'simphox.circuit.coupling']
STUB = ['global NumPy random state (seeded, or stratified numbers for numpy.random.rand)']
ASSUMES = ['meshes given to aggregate are not edited afterwards, and their ids were made unique by offset']
PROPERTY = {
    'statement': 'Meshes have the structure of their architecture: trees funnel their n rails into the last one through n - 1 nodes in ceil(log2 n) '
                 '(balanced) or n - 1 columns (chain), rectangular meshes have n, triangular ones 2n - 3 columns of all n(n - 1)/2 nodes between '
                 'neighbours, tree cascades and butterflies (n = 2^k) those of their trees; node ids are 0 to N - 1, descendants are the nodes '
                 'before a node, nodes of a column touch different rails and spectator rails none. Offsets, inverted columns, aggregation, column '
                 'order, copies and errors change exactly what they say and the mesh computes with the result; programmed vector units report '
                 'the powers at their phase shifters and the Hessian of their error; random splits send equal mean power from all inputs.',
    'quantifier': {'over': ['configurations', 'histories', 'inputs', 'schedules'],
                   'text': 'all architectures and sizes, all histories of structural edits, vectors, and random sources'},
    'why_tests_cant': 'Tests look at three trees and the number of columns of a few meshes right after creation.',
    'anchors': {
        'files': ['simphox/circuit/forward.py', 'simphox/circuit/vector.py', 'simphox/circuit/matrix.py', 'simphox/circuit/rectangular.py'],
        'state': [{'name': 'nodes', 'meaning': 'rails, columns, ids and descendants, edited in place', 'where': 'simphox/circuit/forward.py ForwardMesh.nodes'}],
        'mechanism': [{'name': 'recursive trees', 'where': 'simphox/circuit/vector.py _tree, _butterfly'},
                      {'name': 'cascades', 'where': 'simphox/circuit/matrix.py cascade'},
                      {'name': 'structural edits', 'where': 'simphox/circuit/forward.py offset, offset_column, invert_columns, aggregate, columns'}],
        'observe_at': ['nodes, columns, column_ordered, dataframe, num_columns, matrix, propagate, pn, pnsn, hessian_vector_unit, hessian_fd, rand_theta'],
        'hook_needed': None},
}
M = 240   # random splits looked at


def setup():
    import simphox.circuit, simphox.circuit.vector  # noqa


def draw(rng):
    k = rng.choice(['tree', 'tree', 'chain', 'butterfly', 'triangular', 'rectangular', 'tree_cascade'])
    n = rng.choice([2, 4, 8, 16]) if k == 'butterfly' else rng.randrange(2, 12 if k in ('tree', 'chain') else 8)
    return {'kind': k, 'n': n, 'rails': rng.choice([0, 0, 0, 1, 2]) if k in ('tree', 'chain', 'butterfly') else 0, 'seed': rng.seed32(),
            'style': rng.choice(['top', 'top', 'bottom', 'differential'])}


def gen(rng, tier):
    first = draw(rng)
    meshes = [first] + [dict(draw(rng), **({} if rng.chance(.4) else {k: first[k] for k in ('n', 'rails', 'kind')})) for _ in range(rng.randrange(1, 4))]
    ops = []
    for _ in range(rng.randrange(4, 15)):
        k = rng.weighted([('offset', 1.5), ('shift', 1.5), ('invert', 2), ('aggregate', 3), ('columns', 1), ('order', 1), ('mean', 1), ('variance', 1),
                          ('copy', 1), ('program', 2), ('hessian', .7), ('random', 2), ('frame', .5)])
        ops.append({'op': k, 'm': rng.randrange(6), 'seed': rng.seed32(), 'k': rng.randrange(1, 4), 'gap': rng.choice([0, 0, 1, 2]), 'count': rng.randrange(1, 4),
                    'strata': rng.chance(.7), 'line': rng.randrange(1, 60) if rng.chance(.1) else None})
    return {'config': {'meshes': meshes}, 'ops': ops}


def build(c):
    from simphox.circuit import rectangular, tree_cascade, triangular
    from simphox.circuit.vector import butterfly, tree
    np.random.seed(c['seed'] % 2 ** 32)
    g = nprng(c['seed'])
    k, n, rails = c['kind'], c['n'], c['n'] + c['rails'] if c['rails'] else None
    if k in ('tree', 'chain'):
        return tree(n, rails, balanced=k == 'tree', phase_style=c['style'])
    if k == 'butterfly':
        return butterfly(n, rails)
    if k == 'rectangular':
        return rectangular(unitary(g, n))
    f = {'triangular': triangular, 'tree_cascade': tree_cascade}[k]
    return f(n if c['seed'] % 3 == 0 else unitary(g, n), phase_style=c['style'])


def clog2(n):
    return (n - 1).bit_length()


class Model:
    """The nodes a mesh has to have: {id: [top, bottom, column]}, with errors and losses."""

    def __init__(self, mesh, n, style, kind):
        self.n, self.style, self.kind = n, style, kind
        self.nodes = {int(nd.node_id): [int(nd.top), int(nd.bottom), int(nd.column)] for nd in mesh.nodes}
        self.err = {int(nd.node_id): (tuple(map(float, nd.bs_error)), tuple(map(float, nd.loss))) for nd in mesh.nodes}
        self.params = None
        self.base = 0
        self.inverted = False   # columns that were free at the beginning may count at the end

    @property
    def columns(self):
        return max(x[2] for x in self.nodes.values()) + 1


def fresh(ctx, c, mesh, msg):
    """The structure of a new mesh against its architecture."""
    k, n = c['kind'], c['n']
    N = n + c['rails']
    nodes = [(int(d.node_id), int(d.top), int(d.bottom), int(d.column)) for d in mesh.nodes]
    want = {'tree': n - 1, 'chain': n - 1, 'butterfly': n // 2 * clog2(n)}.get(k, n * (n - 1) // 2)
    cols = {'tree': clog2(n), 'chain': n - 1, 'butterfly': clog2(n), 'triangular': 2 * n - 3, 'rectangular': n if n > 2 else 1,
            'tree_cascade': sum(clog2(i) for i in range(2, n + 1))}[k]

    def chk(cond, text):
        ctx.check(cond, 'wrong-structure', lambda: f'{msg}: {text}; nodes (id, top, bottom, column) {nodes}')
    chk(mesh.n == N and all(d.n == N for d in mesh.nodes), f'{mesh.n} rails, expected {N}')
    chk(len(nodes) == mesh.num_nodes == want, f'{len(nodes)} nodes, expected {want}')
    chk(sorted(x[0] for x in nodes) == list(range(want)), 'node ids')
    chk(sorted({x[3] for x in nodes}) == list(range(cols)) and mesh.num_columns == cols, f'{mesh.num_columns} columns, expected {cols}')
    chk(all(0 <= x[1] < x[2] < n for x in nodes), 'rails')
    chk(not np.any(mesh.bs_errors) and not np.any(mesh.losses) and all(not np.any(d.bs_error) and not np.any(d.loss) for d in mesh.nodes), 'errors or losses nobody asked for')
    for col in range(cols):
        rails = [r for x in nodes if x[3] == col for r in x[1:3]]
        chk(len(rails) == len(set(rails)), f'column {col} has nodes with a common rail')
    if k in ('triangular', 'rectangular'):
        chk(all(x[2] == x[1] + 1 for x in nodes), 'nodes of rails that are no neighbours')
        for t in range(n - 1):   # every pair of neighbours, as often as in these architectures
            cnt = sum(x[1] == t for x in nodes)
            chk(cnt == (n - 1 - t if k == 'triangular' else (n + 1 - t % 2) // 2 if n > 2 else 1), f'{cnt} nodes on rails {t}, {t + 1}')
    # the rails whose light can be on a rail, column by column
    reach = [{i} for i in range(N)]
    owner = [None] * N   # trees: node whose bottom output is on the rail
    below = {}
    for i, t, b, col in sorted(nodes, key=lambda x: x[3]):
        if k in ('tree', 'chain'):
            chk(not reach[t] & reach[b], f'rails meet twice in node {i}')
            sub = [({owner[r]} | set().union(*below[owner[r]])) if owner[r] is not None else set() for r in (t, b)]
            below[i] = sub
            owner[t], owner[b] = None, i
            reach[b] |= reach[t]
            reach[t] = {-1}   # nulled
        else:
            reach[t] = reach[b] = reach[t] | reach[b]
    if k in ('tree', 'chain'):
        chk(reach[n - 1] == set(range(n)) and owner[n - 1] is not None, 'not all rails lead to the last one')
        for d in mesh.nodes:
            got = [set(np.asarray(x).astype(int).tolist()) for x in (d.top_descendants, d.bot_descendants)]
            chk(got == below[int(d.node_id)], f'descendants of node {d.node_id}: {got}, expected {below[int(d.node_id)]}')
        if k == 'tree':   # balanced: the two sides of a node differ by at most one rail
            chk(all(abs(len(a) - len(b)) <= 1 for a, b in below.values()), 'unbalanced')
    elif k == 'butterfly':
        chk(all(reach[i] == set(range(n)) for i in range(n)), 'not every rail reaches every other one')
        chk(all(r == {i} for i, r in enumerate(reach) if i >= n), 'spectators')
    else:
        chk(reach[n - 1] == set(range(n)) and set().union(*reach[:n]) == set(range(n)), 'reach')


def splits(mesh, op, ctx):
    """Mean power (by node_id) a node keeps on its rails, over M random draws."""
    g = nprng(op['seed'])
    N = mesh.thetas.size
    np.random.seed(op['seed'] % 2 ** 32)
    used = []
    if op['strata']:
        perm = np.array([(g.permutation(M) + .5) / M for _ in range(N)])

        def rand(*shape):
            if int(np.prod(shape)) == N:
                used.append(1)
                return perm[:, (len(used) - 1) % M].reshape(shape)
            return np.full(shape, .5)
        with mock.patch('numpy.random.rand', rand):
            th = np.array([mesh.rand_theta() for _ in range(M)])
        ctx.fault('random-source')
    else:
        th = np.array([mesh.rand_theta() for _ in range(M)])
    ctx.check(th.shape == (M, N) and np.all(np.isfinite(th)), 'wrong-random', lambda: f'random phases of shape {th.shape}')
    return np.sin(th / 2) ** 2, len(used) >= M


def uniform(ctx, mesh, mod, op, msg):
    """Random meshes send the same mean power from all inputs to an output."""
    if any(np.any(np.array(e)) for e in mod.err.values()):
        return
    bar, exact = splits(mesh, op, ctx)
    mean = bar.mean(axis=0)
    n, N = mod.kind[1], mod.n
    tol = .02 if exact else .12
    P = np.eye(N)
    for i, (t, b, col) in sorted(mod.nodes.items(), key=lambda x: x[1][2]):
        m = np.eye(N)
        m[t, t] = m[b, b] = mean[i]
        m[t, b] = m[b, t] = 1 - mean[i]
        P = m @ P
    what = mod.kind[0]
    got = P[n - 1, :n] if what in ('tree', 'chain') else P[:n, :n]
    dev = float(np.abs(got - 1 / n).max() * n)
    spread = bar.std(axis=0).min()   # and they do vary
    name = 'random-balanced-tree' if what in ('tree', 'tree_cascade') and n >= 5 and not (what == 'tree' and n & (n - 1) == 0) else f'random {what}'
    ctx.check(spread > .02, 'wrong-random', f'{msg}: {name} of {n} rails does not vary')
    ctx.check(dev < tol * n, 'not-uniform', lambda: f'{msg}: {name} n={n}: mean powers {np.round(got, 3).tolist()}, expected {1 / n:.3f} everywhere')


def look(ctx, mesh, mod, msg, evaluate=True):
    """A mesh against the nodes it has to have."""
    got = {int(d.node_id): [int(d.top), int(d.bottom), int(d.column)] for d in mesh.nodes}
    ctx.check(got == mod.nodes and len(mesh.nodes) == len(got), 'wrong-nodes', lambda: f'{msg}: nodes {got}, expected {mod.nodes}')
    for d in mesh.nodes:
        ctx.close(np.array([d.bs_error, d.loss], float), np.array(mod.err[int(d.node_id)]), 'wrong-errors', tol=1e-12, scale=1, msg=f'{msg}: errors of node {d.node_id}')
    ctx.check(mesh.n == mod.n and mesh.num_nodes == len(mod.nodes) and
              (mesh.num_columns == mod.columns or mod.inverted and mesh.num_columns > mod.columns), 'wrong-structure',
              lambda: f'{msg}: {mesh.n} rails, {mesh.num_nodes} nodes, {mesh.num_columns} columns, expected {mod.n}, {len(mod.nodes)}, {mod.columns}')
    ctx.check(list(map(int, mesh.top)) == [int(d.top) for d in mesh.nodes] and list(map(int, mesh.bottom)) == [int(d.bottom) for d in mesh.nodes],
              'wrong-nodes', f'{msg}: top and bottom rails do not belong to the nodes')
    if mod.base or not evaluate:
        return
    for a, b in zip(mesh.params, mod.params):
        ctx.close(a, b, 'wrong-params', tol=1e-12, scale=1, msg=f'{msg}: parameters')
    cols = mesh.columns
    seen = [int(nc.nodes[0].column) for nc in cols]
    ctx.check(seen == sorted({x[2] for x in mod.nodes.values()}) and all(int(d.column) == col for nc, col in zip(cols, seen) for d in nc.nodes) and
              sorted(int(d.node_id) for nc in cols for d in nc.nodes) == sorted(mod.nodes), 'wrong-columns', lambda: f'{msg}: columns {seen}')
    ref = Nodes(mesh)
    ctx.close(mesh.matrix(), ref.matrix(mod.params), 'wrong-matrix', tol=TOL, scale=2, msg=f'{msg}: matrix')
    f = mesh.propagate(np.eye(mod.n), explicit=False)
    ctx.check(len(f) == len(seen) + 2, 'wrong-fields', lambda: f'{msg}: {len(f)} fields for {len(seen)} columns')
    ctx.close(f[-1], ref.matrix(mod.params), 'wrong-fields', tol=TOL, scale=2, msg=f'{msg}: propagation')


def hess(mesh, p, v):
    """Second derivatives of 2 - 2 Re(last output) for phases p: the output is a polynomial of degree one in each phasor."""
    ref = Nodes(mesh)
    k = len(p[0])
    x0 = np.hstack((p[0], p[1]))

    def f(x):
        u = ref.matrix((x[:k], x[k:], p[2]))
        return 2 - 2 * np.real((u @ v)[-1])
    h = np.zeros((2 * k, 2 * k))
    d = 1e-3
    e = np.eye(2 * k) * d
    c = {}

    def g(i, a, j, b):
        return f(x0 + a * e[i] + b * e[j])
    for i in range(2 * k):
        for j in range(i + 1):
            h[i, j] = h[j, i] = (g(i, 1, j, 1) + g(i, -1, j, -1) - g(i, 1, j, -1) - g(i, -1, j, 1)) / (4 * d * d)
    return h


def run(plan, ctx):
    from simphox.circuit import ForwardMesh
    from simphox.circuit.vector import hessian_fd, hessian_vector_unit, vector_unit
    from ..seams import Interrupter
    world, last = [], []
    for c in plan['config']['meshes']:
        mesh = build(c)
        fresh(ctx, c, mesh, f'{c["kind"]} n={c["n"]}+{c["rails"]}')
        mod = Model(mesh, mesh.n, mesh.phase_style, (c['kind'], c['n']))
        mod.params = tuple(np.array(x) for x in mesh.params)
        for x, s in zip(mod.params, (mesh.num_nodes, mesh.num_nodes, mesh.n)):
            ctx.check(x.shape == (s,) and np.all(np.isfinite(x)), 'wrong-params', f'{c["kind"]} n={c["n"]}: {x}')
        world.append((mesh, mod))
    hist = []
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k = op['op']
        g = nprng(op['seed'])
        j = op['m'] % len(world)
        mesh, mod = world[j]
        msg = f'{"/".join(map(str, mod.kind))} {k} after {hist}'
        same = lambda r: ctx.check(r is mesh, 'not-chained', f'{msg}: not the mesh itself')  # noqa
        if op['line'] is not None and not mod.base:   # a reading that is interrupted changes nothing
            try:
                with Interrupter(op['line'], KeyboardInterrupt):
                    mesh.columns, mesh.column_ordered, mesh.dataframe
                    mesh.matrix()
            except KeyboardInterrupt:
                ctx.fault('interrupt')
        if k == 'offset':
            d = -mod.base if mod.base else op['k']
            same(mesh.offset(d))
            mod.nodes = {a + d: b for a, b in mod.nodes.items()}
            mod.err = {a + d: b for a, b in mod.err.items()}
            mod.base += d
        elif k == 'shift':
            same(mesh.offset_column(op['k']))
            for x in mod.nodes.values():
                x[2] += op['k']
        elif k == 'invert':
            L = mesh.num_columns
            same(mesh.invert_columns())
            for x in mod.nodes.values():
                x[2] = L - 1 - x[2]
            mod.inverted = True
        elif k == 'aggregate':
            pick = [w for w in world if w[1].n == mod.n and w[1].style == mod.style and not w[1].base][:op['count'] + 1]
            if not pick:
                continue
            ids = cols = 0
            nodes, err = {}, {}
            for m, w in pick:
                m.offset(ids).offset_column(cols)
                nodes.update({a + ids: [b[0], b[1], b[2] + cols] for a, b in w.nodes.items()})
                err.update({a + ids: b for a, b in w.err.items()})
                ids += len(w.nodes)
                cols += w.columns + op['gap']
            new = ForwardMesh.aggregate([m for m, _ in pick], mod.style)
            nm = Model(new, mod.n, mod.style, ('aggregate', len(pick)))
            nm.nodes, nm.err = nodes, err
            th = [np.concatenate([w.params[a] for _, w in pick]) for a in (0, 1)]
            nm.params = th[0], th[1], pick[-1][1].params[2].copy()
            new.params = nm.params
            world = [w for w in world if all(w is not q for q in pick)] + [(new, nm)]
            mesh, mod = new, nm
            j = len(world) - 1
        elif k in ('columns', 'order') and not mod.base:
            o = mesh.column_ordered
            got = [(int(d.column), int(d.node_id), int(d.top), int(d.bottom)) for d in o.nodes]
            ctx.check([x[0] for x in got] == sorted(x[0] for x in got) and sorted(got) == sorted((v[2], a, v[0], v[1]) for a, v in mod.nodes.items()),
                      'wrong-columns', lambda: f'{msg}: column order {got}')
            ctx.check(o.phase_style == mod.style, 'wrong-columns', f'{msg}: phase style')
            o.params = mod.params
            ctx.close(o.matrix(), Nodes(mesh).matrix(mod.params), 'wrong-matrix', tol=TOL, scale=2, msg=f'{msg}: column ordered mesh')
        elif k in ('mean', 'variance') and not mod.base:
            np.random.seed(op['seed'] % 2 ** 32)
            if k == 'mean':
                er = [None, .1, -.05][op['seed'] % 3]
                new = mesh.add_error_mean(.1, -.2, er)
                err = {a: ((.1, .1 if er is None else er), (-.2, -.2)) for a in mod.err}
            else:
                new = mesh.add_error_variance(.1, .1, equal_splitter_error=op['gap'] == 0)
                err = {int(d.node_id): (tuple(map(float, d.bs_error)), tuple(map(float, d.loss))) for d in new.nodes}
            look(ctx, mesh, mod, f'{msg}: original')
            nm = copy.deepcopy(mod)
            nm.err = err
            world[j] = new, nm
            mesh, mod = new, nm
        elif k == 'copy':
            new, nm = copy.deepcopy(mesh), copy.deepcopy(mod)
            if not mod.base:   # edits of the copy are its own
                new.offset(1).offset_column(2).invert_columns()
                new.offset(-1)
            look(ctx, mesh, mod, f'{msg}: original')
        elif k == 'frame':
            df = mesh.dataframe
            got = {int(r['node_id']): [int(r['top']), int(r['bottom']), int(r['column'])] for _, r in df.iterrows()}
            ctx.check(got == mod.nodes, 'wrong-nodes', lambda: f'{msg}: data frame {got}')
        elif k == 'program':
            n = int(g.randint(2, 10))
            v = g.normal(size=n) + 1j * g.normal(size=n)
            balanced, style = bool(g.randint(2)), ['top', 'bottom', 'differential'][g.randint(3)]
            rails = n + op['gap']
            m, w = vector_unit(v, rails, balanced=balanced, phase_style=style)
            p = m.params
            ref = Nodes(m)
            N = m.n
            x = np.hstack((v, np.zeros(N - n)))
            out = ref.matrix(p) @ x
            text = f'{msg}: vector unit n={n}+{N - n} balanced={balanced} {style}'
            ctx.close(out, np.linalg.norm(v) * np.eye(N)[n - 1], 'wrong-vector', tol=1e-6, scale=np.linalg.norm(v), msg=f'{text}: output')
            ctx.close(np.abs(np.asarray(w).ravel()[:n]), np.abs(out[:n]), 'wrong-vector', tol=1e-6, scale=np.linalg.norm(v), msg=f'{text}: returned vector')
            for nd in ref.nodes:   # powers at the phase shifters, before and after every node
                before = x
                for col in ref.columns:
                    if col == nd[0]:
                        break
                    before = ref.column(col, p) @ before
                after = ref.column(nd[0], p) @ before
                if style in ('top', 'bottom'):
                    ctx.close(m.pnsn[nd[2]], np.abs(before[nd[3] if style == 'top' else nd[4]]) ** 2, 'wrong-power', tol=1e-6, scale=np.linalg.norm(v) ** 2, msg=f'{text}: pnsn of node {nd[2]}')
                ctx.close(m.pn[nd[2]], np.abs(after[nd[4]]) ** 2, 'wrong-power', tol=1e-6, scale=np.linalg.norm(v) ** 2, msg=f'{text}: pn of node {nd[2]}')
        elif k == 'hessian':
            from simphox.circuit import balanced_tree, unbalanced_tree
            n = int(g.randint(2, 8))
            v = g.normal(size=n) + 1j * g.normal(size=n)
            v /= np.linalg.norm(v)
            balanced = bool(g.randint(2))
            h = hessian_vector_unit(3 * v, balanced)
            m = (balanced_tree if balanced else unbalanced_tree)(v)
            want = hess(m, m.params, v.conj())
            ctx.close(h, want, 'wrong-hessian', tol=1e-5, scale=2, msg=f'{msg}: Hessian n={n} balanced={balanced}')
            if n < 6:
                ctx.close(hessian_fd(3 * v, 1e-3, balanced), want, 'wrong-hessian', tol=1e-4, scale=2, msg=f'{msg}: numeric Hessian n={n} balanced={balanced}')
        for q, (m, w) in enumerate(world):
            look(ctx, m, w, f'{msg}: mesh {q} ({w.kind[0]})', evaluate=m is mesh or i % 3 == 0)
        hist.append(k)
        if k == 'random' and not mod.base and mod.kind[0] != 'aggregate':
            last.append((mesh, mod, op, msg))
        ctx.state(mod.kind, hist[-3:])
        ctx.log(k, mod.kind, sig(mod.params[0], 6))
        ctx.sim_time += 1
    # the known findings about random splits come last
    for mesh, mod, op, msg in sorted(last, key=lambda x: (x[1].kind[0] in ('tree', 'tree_cascade'), x[1].kind[1])):
        if not mod.base and not mod.inverted and any(m is mesh for m, _ in world):
            uniform(ctx, mesh, mod, op, msg)
