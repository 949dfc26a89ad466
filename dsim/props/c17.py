"""C17: synthesized meshes implement their target, whatever the random state and whatever was synthesized before."""
import numpy as np

from ..core import nprng, sig
from .meshsim import Nodes, TOL, unitary

ID = 'C17'
TITLE = 'Synthesized meshes implement their target and correct their errors'
LEVEL = 'exploration'
RUNS = {'quick': 1200, 'thorough': 40000}
TIME_UNIT = 'meshes synthesized'
NOTE = 'Seeded search over targets, architectures, random states, fabrication errors and interrupted or earlier syntheses; not exhaustive.'
RULE = ('2-5 operations: synthesis of triangular, tree cascade, rectangular, vector unit and singular value meshes for drawn '
        'targets (random, real, permutations, diagonal, block, Fourier, close to permutations; vectors with zeros or graded entries; any scale) with drawn coupler '
        'errors and losses from a drawn random state, some aborted at a drawn line or by the progress bar.')
STATE = 'hash of (architecture, style, kind of target, size, errors)'
REAL = ['simphox.circuit']
STUB = ['global NumPy random state (seeded, changed between syntheses)']
ASSUMES = ['with losses only the losses and errors of the nodes and the model of the matrix are judged, not the target', 'the matrix is judged when every node can reach the split the target asks of it (a node with errors '
           'cannot reach all of them)', 'unitaries of full size', 'vectors of norm 1 or larger (an absolute epsilon limits the relative precision of smaller ones)', 'errors are stored in single precision']
PROPERTY = {
    'statement': 'triangular, tree_cascade, cascade and rectangular return a mesh whose matrix is the given unitary, psvd meshes '
                 'and values whose product is the given matrix, vector_unit a mesh that sends the given vector to its last '
                 'rail with phase 0 (on n_rails rails: leaving the others alone) and the result of this on all columns, '
                 'balanced_tree and unbalanced_tree the same for the conjugate vector, cs unitary parts that csinv puts together: for all targets, sizes and phase '
                 'styles but symmetric, with coupler errors as long as every node can reach its split, in any state of the '
                 'random generator, after any other or aborted synthesis, without changing the target. Meshes asked for with losses '
                 'have them on every node.',
    'quantifier': {'over': ['inputs', 'configurations', 'histories', 'crash_points'],
                   'text': 'all unitaries, vectors, sizes, architectures, phase styles, coupler errors and random states'},
    'why_tests_cant': 'Tests synthesize random unitaries of a few sizes; zeros, signs and phases at the branch cuts, error '
                      'draws and leftovers of other syntheses are never met.',
    'anchors': {
        'files': ['simphox/circuit/vector.py', 'simphox/circuit/matrix.py', 'simphox/circuit/rectangular.py', 'simphox/circuit/forward.py'],
        'state': [{'name': 'programmed phases', 'meaning': 'thetas, phis, gammas by node_id', 'where': 'simphox/circuit/vector.py _program_vector_unit'}],
        'mechanism': [{'name': 'nullification', 'where': 'simphox/circuit/forward.py parallel_nullify'},
                      {'name': 'Clements decomposition', 'where': 'simphox/circuit/rectangular.py rectangular'}],
        'observe_at': ['matrix of the returned meshes'],
        'hook_needed': None},
}
KINDS = ['random', 'random', 'random', 'permutation', 'identity', 'diagonal', 'real', 'block', 'dft', 'near', 'near']


def setup():
    import simphox.circuit, simphox.circuit.vector  # noqa


def gen(rng, tier):
    ops = []
    for _ in range(rng.randrange(2, 6)):
        ops.append({'op': rng.weighted([('triangular', 3), ('tree_cascade', 3), ('rectangular', 3), ('vector_unit', 3), ('tree', 2), ('psvd', 1), ('random', .7), ('cs', 1)]),
                    'n': rng.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]) if rng.chance(.97) else rng.randrange(11, 25), 'kind': rng.choice(KINDS), 'seed': rng.seed32(), 'rng': rng.seed32(),
                    'style': rng.choice(['top', 'top', 'bottom', 'differential']), 'std': rng.choice([0, 0, .01, .05]), 'mean': rng.choice([0, 0, .03]),
                    'balanced': rng.chance(.5), 'rails': rng.choice([0, 0, 1, 3]), 'cols': rng.choice([0, 0, 2, 3]), 'scale': rng.choice([1, 1, 30, 1e3]),
                    'zeros': rng.choice([0, 0, 1, 2]), 'real': rng.chance(.3), 'graded': rng.chance(.35), 'fault': rng.choice([None] * 6 + ['line', 'line', 'pbar']),
                    'line': rng.randrange(3, 500), 'loss': rng.choice([0, 0, .05, .3]), 'loss std': rng.choice([0, 0, .02])})
    return {'config': {}, 'ops': ops}


def reachable(mesh, ideal, same=None):
    """Whether every node with its errors reaches the split that the ideal mesh has (by node_id), with some distance."""
    for nd in mesh.nodes:
        e = np.asarray(nd.bs_error, float) + np.pi / 4
        cs, sc = np.cos(e[1]) * np.sin(e[0]), np.sin(e[1]) * np.cos(e[0])
        s = np.cos(ideal.thetas[nd.node_id] / 2) ** 2
        if not ((cs - sc) ** 2 + 2e-3 < s < (cs + sc) ** 2 - 2e-3):
            return False
    return True


def run(plan, ctx):
    from ..seams import Interrupter
    from simphox.circuit import balanced_tree, cascade, rectangular, tree_cascade, triangular, unbalanced_tree, vector_unit
    from simphox.circuit.matrix import cs, csinv, psvd
    hist = []
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k, n, g, style = op['op'], op['n'], nprng(op['seed']), op['style']
        np.random.seed(op['rng'] % 2 ** 32)
        em = (op['mean'], op['std'])
        ideal_em = (0., 0.)
        msg = f'{k} n={n} {style} {op["kind"]} errors={em} after {hist}'
        u = unitary(g, n, op['kind'])
        keep = u.copy()
        it = Interrupter(op['line'] if op['fault'] == 'line' else None, KeyboardInterrupt)

        def pbar(x):
            for a, b in enumerate(x):
                if op['fault'] == 'pbar' and a == op['line'] % max(1, n - 1):
                    raise KeyboardInterrupt('injected')
                yield b
        meshes = {'triangular': triangular, 'tree_cascade': tree_cascade}
        if k in meshes:
            f = meshes[k]
            if op['rails'] == 1:
                f = lambda *a, **kw: cascade(*a, balanced=k == 'tree_cascade', **kw)  # noqa
            make = lambda e, **kw: f(u, phase_style=style, error_mean_std=e, **kw)  # noqa
        elif k == 'rectangular':
            make = lambda e: rectangular(u, pbar=pbar if op['fault'] == 'pbar' else None)  # noqa
            em = ideal_em
        elif k == 'random':
            make = lambda e: triangular(n, phase_style=style, error_mean_std=e) if op['balanced'] else tree_cascade(n, phase_style=style, error_mean_std=e)  # noqa
        elif k == 'cs':
            make = lambda e: cs(u)  # noqa
            em = ideal_em
        elif k == 'psvd':
            u = g.normal(size=(n, n if op['real'] else n + op['zeros'])) + (0 if op['real'] else 1j * g.normal(size=(n, n + op['zeros'])))
            keep = u.copy()
            make = lambda e: psvd(u)  # noqa
        else:
            shape = (n, op['cols']) if op['cols'] and k == 'vector_unit' else n
            u = (g.normal(size=shape) + (0 if op['real'] else 1j * g.normal(size=shape))) * op['scale']
            if op['graded']:
                u = u * 10 ** g.uniform(-6, 0, u.shape)
            for _ in range(min(op['zeros'], n - 1)):
                u[g.randint(n)] = 0
            if not np.any(u):
                u[0] = op['scale']
            u = u / np.linalg.norm(u.reshape(n, -1)[:, -1]) * op['scale'] if np.any(u.reshape(n, -1)[:, -1]) else u + op['scale']
            keep = u.copy()
            if k == 'vector_unit':
                make = lambda e, **kw: vector_unit(u, n + op['rails'] if op['rails'] else None, op['balanced'], style, e, **kw)  # noqa
            else:
                make = lambda e, **kw: (balanced_tree if op['balanced'] else unbalanced_tree)(u, style, e, **kw)  # noqa
        if op['fault']:
            hit = True
            try:
                with it:
                    make(em)
                hit = False
            except KeyboardInterrupt:
                ctx.fault('interrupt' if op['fault'] == 'line' else 'progress bar fails')
                hist.append('aborted ' + k)
            if op['fault'] == 'pbar' and k == 'rectangular' and n > 1:
                ctx.check(hit, 'error-swallowed', f'{msg}: the progress bar failed')
            ctx.same(u, keep, 'target-changed', msg)
            np.random.seed(op['rng'] % 2 ** 32)
            if k == 'rectangular':
                make = lambda e: rectangular(u)  # noqa
        result = make(em)
        ctx.sim_time += 1
        ctx.same(u, keep, 'target-changed', msg)
        if k == 'cs':
            for j, x in enumerate(result[:4]):
                ctx.close(x @ np.conj(x.T), np.eye(len(x)), 'wrong-matrix', tol=1e-9, scale=1, msg=f'{msg}: part {j} times its adjoint')
            th = np.asarray(result[4])
            ctx.check(th.shape == (n // 2,) and th.min() > -1e-9 and th.max() < np.pi / 2 + 1e-9, 'wrong-matrix', lambda: f'{msg}: phases {th}')
            ctx.close(csinv(*result), u, 'wrong-matrix', tol=1e-9, scale=1, msg=f'{msg}: inverse of the decomposition')
        elif k == 'psvd':
            l, d, r = result
            m, p = u.shape
            s = np.zeros((m, p))
            s[np.arange(len(d)), np.arange(len(d))] = d
            ctx.close(l.matrix() @ s @ r.matrix(), u, 'wrong-matrix', tol=n * TOL, msg=f'{msg}: product of the meshes')
            for x, nm in ((l, 'left'), (r, 'right')):
                ctx.close(Nodes(x).matrix(x.params), x.matrix(), 'wrong-matrix', tol=n * TOL, scale=1, msg=f'{msg}: {nm} mesh')
        elif k == 'random':
            if not any(em):
                q = Nodes(result).matrix(result.params)
                ctx.close(q @ q.conj().T, np.eye(n), 'wrong-matrix', tol=n * TOL, msg=f'{msg}: random mesh is not unitary')
        else:
            mesh, w = result if k == 'vector_unit' else (result, None)
            # the phases of an ideal mesh depend on the target only
            np.random.seed((op['rng'] + 1) % 2 ** 32)
            ideal = make(ideal_em)
            ideal = ideal[0] if k == 'vector_unit' else ideal
            np.random.seed((op['rng'] + 2) % 2 ** 32)
            again = make(ideal_em)
            again = again[0] if k == 'vector_unit' else again
            ctx.close(Nodes(ideal).matrix(ideal.params), Nodes(again).matrix(again.params), 'random-phases', tol=n * TOL, scale=1,
                      msg=f'{msg}: the matrix depends on the random state')
            if (op['kind'] in ('random', 'real') if k not in ('vector_unit', 'tree') else not op['zeros'] and not op['graded']):  # no degenerate nodes
                for a, b in zip(ideal.params, again.params):
                    ctx.close(np.exp(1j * a), np.exp(1j * b), 'random-phases', tol=1e-6, scale=1, msg=f'{msg}: phases depend on the random state')
            for mm, label in ((ideal, 'ideal mesh'), (mesh, 'mesh with its errors')):
                if mm is mesh and any(em):
                    es = np.array([nd.bs_error for nd in mesh.nodes])
                    ctx.check(op['std'] == 0 or np.any(es != es[0, 0]) or len(es) < 2, 'no-errors', f'{msg}: errors of the nodes do not vary')
                    ctx.check(abs(np.mean(es) - op['mean']) < 6 * op['std'] + 1e-9, 'no-errors', f'{msg}: mean of the errors')
                    if not reachable(mesh, ideal):
                        ctx.probe('split out of reach')
                        continue
                    ctx.fault('fabrication errors')
                mat = Nodes(mm).matrix(mm.params)
                ctx.close(mm.matrix(), mat, 'wrong-matrix', tol=n * TOL, scale=1, msg=f'{msg}: matrix of the {label}')
                tol = n * TOL * (1 if mm is ideal else 30)
                if k in ('vector_unit', 'tree'):
                    v = u.reshape(n, -1)[:, -1] if k == 'vector_unit' else u.conj()
                    nr = mm.n
                    out = mat @ np.concatenate([v, np.zeros(nr - n)])
                    want = np.zeros(nr)
                    want[n - 1] = np.linalg.norm(v)
                    ctx.close(out, want, 'wrong-vector', tol=tol, msg=f'{msg}: outputs of the {label} for its vector')
                    if nr > n:
                        ctx.close(mat[n:], np.eye(nr)[n:], 'wrong-vector', tol=TOL, scale=1, msg=f'{msg}: other rails of the {label}')
                        ctx.close(mat[:, n:], np.eye(nr)[:, n:], 'wrong-vector', tol=TOL, scale=1, msg=f'{msg}: other rails of the {label}')
                    if w is not None and mm is mesh:
                        cols = np.exp(-1j * np.asarray(mm.gammas))[:n, None] * (mat[:n, :n] @ u.reshape(n, -1))
                        ctx.close(np.asarray(w).reshape(n, -1), cols, 'wrong-vector', tol=tol, scale=float(np.abs(u).max()), msg=f'{msg}: returned columns')
                else:
                    ctx.close(mat, u, 'wrong-matrix', tol=tol, scale=1, msg=f'{msg}: matrix of the {label} is not the target')
            if op['loss'] and k in ('triangular', 'tree_cascade', 'vector_unit', 'tree'):
                lossy = make((op['mean'], 0.), loss_mean_std=(-op['loss'], op['loss std']))
                lossy = lossy[0] if k == 'vector_unit' else lossy
                ls, es = [np.array([getattr(nd, a) for nd in lossy.nodes], float) for a in ('loss', 'bs_error')]
                ctx.close(es, np.full((len(es), 2), op['mean']), 'wrong-errors', tol=1e-6, scale=1, msg=f'{msg}: coupler errors of a lossy mesh')
                if op['loss std']:
                    ctx.check(len(ls) < 2 or np.any(ls != ls[0, 0]), 'wrong-errors', f'{msg}: losses of the nodes do not vary')
                    ctx.check(abs(np.mean(ls) + op['loss']) < 6 * op['loss std'], 'wrong-errors', f'{msg}: mean of the losses')
                else:
                    ctx.close(ls, np.full((len(ls), 2), -op['loss']), 'wrong-errors', tol=1e-6, scale=1, msg=f'{msg}: losses')
                ctx.close(lossy.matrix(), Nodes(lossy).matrix(lossy.params), 'wrong-matrix', tol=n * TOL, scale=1, msg=f'{msg}: matrix of the lossy mesh')
                ctx.fault('fabrication losses')
        hist.append(k)
        ctx.state(k, style, op['kind'], n, bool(op['std']))
        ctx.log(k, n, op['kind'], style)
