"""C01: a linear solve returns the solution of the system it was given, whatever was solved before."""
import numpy as np
import scipy.sparse as sp

from ..core import nprng, sig
from ..ref import RefGrid, backward_error

ID = 'C01'
TITLE = 'Every linear solve returns the solution of the system it was given'
LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 8000}
RULE = ('a history of 8-40 solves, factorizations, frees, in-place edits and FDFD solves (edited permittivity and wavelength, spacings and PML per axis) over several matrices that '
        'are easily mistaken for each other, on the process-wide solver and on separate solver objects of all '
        'supported matrix types.')
STATE = 'hash of (solver, relation of the matrix to the previous one of that solver, factored or not)'
REAL = ['simphox.mkl', 'simphox.fdfd', 'simphox.grid', 'Intel MKL Pardiso (native)']
STUB = ['the native call goes through a recording proxy (no fault is injected in this property)']
ASSUMES = ['one thread (C02 has several)', 'matrices are diagonally dominant or carry a PML, so that the solution is '
           'well conditioned', 'MKL uses one thread']

NOTE = ('Seeded search over solve histories of the real native solver; every solution is judged by its backward error in '
        'the system that was given, every field by an independent Yee operator. A history that no run contains is not '
        'covered.')
PROPERTY = {
    'statement': 'A linear solve returns the solution of exactly the matrix and right-hand side(s) it was given, in the '
                 'shape of the right-hand side, for every supported matrix type and whatever was solved, factorized or '
                 'freed before by the same or another solver, also when the matrix resembles an earlier one or was '
                 'edited in place. The frequency-domain fields of a simulation solve its own equations in the same '
                 'sense. Inputs stay as they were, and results handed out earlier never change.',
    'quantifier': {'over': ['histories', 'inputs'],
                   'text': 'all sequences of solves, factorizations and frees over solver objects and matrices, including '
                           'pairs of matrices that share shape, pattern, data or most entries'},
    'why_tests_cant': 'The solver keeps the last factorization in native memory and decides from the matrix whether it can '
                      'be reused; the tests solve a handful of small systems once each, so they never see the second '
                      'matrix that resembles the first.',
    'anchors': {
        'files': ['simphox/mkl.py', 'simphox/fdfd.py'],
        'state': [{'name': 'factorization', 'meaning': 'the matrix whose factors the native library holds',
                   'where': 'simphox/mkl.py Pardiso'}],
        'mechanism': [{'name': 'solver phase chosen by comparing matrices', 'where': 'simphox/mkl.py Pardiso.solve'},
                      {'name': 'process-wide solver', 'where': 'simphox/mkl.py spsolve_pardiso'}],
        'observe_at': ['results of spsolve_pardiso, Pardiso.solve and FDFD.solve'],
        'hook_needed': None},
}

COMPLEX = (13, 6, 4, -4)
MTYPES = (13, 11, 6, 2, -2, 4, -4)
RELS = ['same-object', 'equal-copy', 'tweak', 'tweak-deep', 'move-one', 'other-columns', 'other-rows', 'transpose', 'conj', 'scale',
        'negate-one', 'swap-two', 'coo-split', 'unsorted', 'csc', 'resize', 'other', 'edit-in-place', 'back']


def setup():
    import simphox.fdfd, simphox.mkl  # noqa


def gen(rng, tier):
    insts = [{'kind': 'global'}]
    for _ in range(rng.randrange(0, 3)):
        insts.append({'kind': 'own', 'mtype': rng.choice(MTYPES)})
    sizes = [rng.choice([4, 9, 30, 90]), rng.choice([12, 200, 200, 700, 700, 1600, 1600, 7000])]
    mats = [{'n': n, 'seed': rng.seed32(), 'density': rng.choice([2, 5, 9])} for n in sizes]
    sims = [{'shape': [rng.choice([16, 20, 25]), rng.choice([14, 18])], 'spacing': rng.choice([[.1, .1], [.1, .08], [.08, .12]]),
             'pml': [rng.choice([4.5, 5.5]), rng.choice([4.5, 5.5, 6.5])], 'pml_params': rng.choice([[4, -16, 1.], [3, -14, 1.3]]), 'eps': rng.seed32(),
             'wavelength': rng.choice([1.2, 1.55, 1.31])} for _ in range(2)]
    ops = []
    for _ in range(rng.randrange(8, 41 if tier == 'thorough' else 25)):
        k = rng.weighted([('solve', 10), ('factor', 2), ('free', 1), ('fdfd', 2), ('perturb-sim', 1), ('rhs-edit', 0.5)])
        op = {'op': k, 'seed': rng.seed32()}
        if k in ('solve', 'factor', 'free'):
            op['inst'] = rng.randrange(len(insts))
        if k in ('solve', 'factor'):
            large = sizes[1] > 2000
            op['rel'] = rng.choice(RELS + ['move-one', 'move-one', 'tweak', 'negate-one', 'swap-two', 'edit-in-place'] * 2 if large else RELS)
            op['mat'] = rng.randrange(len(mats)) if not large else int(rng.chance(.8))
        if k == 'solve':
            op['rhs'] = rng.weighted([('complex', 5), ('real', 2), ('same', 2), ('multi', 2), ('multi-c', 1), ('col', 1),
                                      ('view', 1), ('zero', .3)])
        if k == 'free':
            op['complete'] = rng.chance(.5)
        if k == 'fdfd':
            op.update(sim=rng.randrange(2), pol=rng.choice(['tm', 'te']), src=rng.choice(['same', 'new']))
        if k == 'perturb-sim':
            op.update(sim=rng.randrange(2), how=rng.choice(['one', 'region', 'array', 'wavelength']))
        ops.append(op)
    return {'config': {'insts': insts, 'mats': mats, 'sims': sims}, 'ops': ops}


def base_matrix(spec, mtype):
    """A well conditioned matrix of the structure mtype stands for."""
    g = nprng(spec['seed'])
    n = spec['n']
    m = n * spec['density'] // 2 + 1
    i, j = g.randint(0, n, m), g.randint(0, n, m)
    if n > 2000:   # large matrices are banded (cheap to factorize)
        j = np.clip(i + g.randint(-9, 10, m), 0, n - 1)
    v = g.uniform(-1, 1, m) + (1j * g.uniform(-1, 1, m) if mtype in COMPLEX else 0)
    a = sp.coo_matrix((v, (i, j)), shape=(n, n)).tocsr()
    a = a + sp.diags(g.uniform(.1, 1, n - 1), 1) + (sp.diags(g.uniform(.1, 1, n - 1), -1) if mtype in (13, 11) else 0)
    return structured(a, mtype, g)


def structured(a, mtype, g):
    a = sp.csr_matrix(a)
    if mtype in (2, -2, 6):
        a = a + a.T
    if mtype in (4, -4):
        a = a + a.conj().T
    n = a.shape[0]
    a = a.tolil()
    a.setdiag(0)
    a = sp.csr_matrix(a)
    a.eliminate_zeros()
    d = np.asarray(np.abs(a).sum(axis=1)).ravel() + g.uniform(1, 2, n)
    if mtype in (-2, -4):
        d = d * g.choice([-1, 1], n)
    elif mtype in (13, 6):
        d = d * np.exp(1j * g.uniform(0, 6, n))
    elif mtype == 11:
        d = d * g.choice([-1, 1], n)
    a = sp.csr_matrix(a + sp.diags(d)).astype(complex if mtype in COMPLEX else float)
    a.sort_indices()
    return a


def permutation(g, n):
    if n <= 2000:
        return g.permutation(n)
    k = np.arange(n)   # large matrices stay banded
    for i in range(0, n - 8, 8):
        k[i:i + 8] = i + g.permutation(8)
    return k


def symmetric_pair(a, mtype, k, fn):
    """Change the k-th stored entry (and its mirror image) of a with fn."""
    a = a.copy()
    rows = np.repeat(np.arange(a.shape[0]), np.diff(a.indptr))
    i, j = rows[k], a.indices[k]
    v = fn(a[i, j])
    if i == j and mtype in (4, -4, 2, -2, 11):
        v = v.real
    a[i, j] = v
    if mtype in (2, -2, 6):
        a[j, i] = v
    elif mtype in (4, -4):
        a[j, i] = np.conj(v)
    return a


def relate(rel, prev, spec, mtype, g):
    """A matrix with the given relation to the previous one."""
    n = prev.shape[0]
    asym = mtype in (13, 11)
    if rel == 'same-object':
        return prev
    if rel == 'equal-copy':
        return prev.copy()
    if rel == 'tweak':
        return symmetric_pair(prev, mtype, g.randint(prev.nnz), lambda v: v * (1 + .3 * g.uniform(.5, 1)))
    if rel == 'tweak-deep':  # somewhere in the middle
        return symmetric_pair(prev, mtype, prev.nnz // 2 + g.randint(-prev.nnz // 8 - 1, prev.nnz // 8 + 1),
                              lambda v: v * 1.25)
    if rel == 'negate-one':
        rows = np.repeat(np.arange(n), np.diff(prev.indptr))
        off = np.flatnonzero(rows != prev.indices)
        return symmetric_pair(prev, mtype, off[g.randint(off.size)], lambda v: -v) if off.size else prev.copy()
    if rel == 'other-columns' and asym:  # same data, same row lengths, other columns (rows stay dominant)
        p = permutation(g, n)
        q = prev.copy()
        q.indices = p[q.indices].astype(q.indices.dtype)
        q.has_sorted_indices = False
        return q
    if rel == 'other-rows' and asym:  # same data and columns, the rows are cut differently
        d = np.diff(prev.indptr)
        k = permutation(g, n)
        q = sp.vstack([prev[i] for i in k]).tocsr() if n <= 90 else prev[k]
        return q
    if rel == 'move-one' and asym:   # one entry, in any row, moves to another column
        q = prev.copy()
        rows = np.flatnonzero(np.diff(q.indptr) > 1)
        r = rows[g.randint(rows.size)]
        own = q.indices[q.indptr[r]:q.indptr[r + 1]]
        off = np.flatnonzero(own != r)
        free = np.setdiff1d(np.arange(max(0, r - 9), min(n, r + 10)), own)
        if off.size and free.size:
            own[off[g.randint(off.size)]] = free[g.randint(free.size)]
            q.has_sorted_indices = False
            q.sort_indices()
        return q
    if rel == 'transpose':
        return sp.csr_matrix(prev.T) if mtype not in (6, 2, -2) else prev.copy()
    if rel == 'conj':
        return prev.conj()
    if rel == 'scale':
        return sp.csr_matrix(prev * g.choice([2., .5, -1.]) if mtype not in (2, 4) else prev * 2.)
    if rel == 'swap-two' and asym:  # exchange two rows: same multiset of entries
        k = np.arange(n)
        i = g.randint(n)
        j = g.randint(n) if n <= 2000 else (i + 5) % n
        k[i], k[j] = k[j], k[i]
        return prev[k]
    if rel == 'coo-split':  # the same matrix with duplicate coordinates
        c = prev.tocoo()
        w = g.uniform(.2, .8, c.nnz)
        return sp.coo_matrix((np.r_[c.data * w, c.data * (1 - w)], (np.r_[c.row, c.row], np.r_[c.col, c.col])),
                             shape=c.shape)
    if rel == 'unsorted':
        q = prev.copy()
        for r in range(0, n, max(1, n // 40)):
            s, e = q.indptr[r], q.indptr[r + 1]
            q.indices[s:e], q.data[s:e] = q.indices[s:e][::-1].copy(), q.data[s:e][::-1].copy()
        q.has_sorted_indices = False
        return q
    if rel == 'csc':
        return prev.tocsc() if asym else prev.copy()
    if rel == 'resize':
        return base_matrix({**spec, 'n': max(3, spec['n'] + int(g.choice([-1, 1, 2])))}, mtype)
    return base_matrix({**spec, 'seed': int(g.randint(1 << 30))}, mtype)


def make_rhs(kind, n, dtype, g, last):
    cplx = np.issubdtype(dtype, np.complexfloating)
    def rnd(*s):
        return g.uniform(-1, 1, s) + (1j * g.uniform(-1, 1, s) if cplx else 0)
    if kind == 'same' and last is not None and last.shape[0] == n and (cplx or not np.iscomplexobj(last)):
        return last
    if kind == 'real':
        return g.uniform(-1, 1, n)
    if kind == 'multi':
        return rnd(n, 3)
    if kind == 'multi-c':
        return np.asfortranarray(rnd(n, 2))
    if kind == 'col':
        return rnd(n, 1)
    if kind == 'view':
        return rnd(2 * n)[::2]
    if kind == 'zero':
        return np.zeros(n, dtype)
    return rnd(n)


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.mkl import Pardiso, spsolve_pardiso
    cfg = plan['config']
    insts = []
    for c in cfg['insts']:
        insts.append({'mtype': c.get('mtype', 13), 'solver': None if c['kind'] == 'global' else Pardiso(c['mtype']),
                      'mats': {}, 'past': [], 'rhs': None, 'used': False})
    sims = []
    for s in cfg['sims']:
        g = nprng(s['eps'])
        shape = tuple(s['shape'])
        eps = 1 + 5 * (g.uniform(0, 1, shape) > .6)
        d = np.array(s['spacing'])
        size, pml = tuple(d * shape), tuple(d * s['pml'])
        sims.append({'sim': FDFD(size, d if np.ptp(d) else d[0], wavelength=s['wavelength'], eps=eps.astype(float), pml=pml,
                                 pml_params=tuple(s['pml_params'])), 'eps': eps * 1.,
                     'ref': (size, d), 'pml': (pml, tuple(s['pml_params'])), 'wl': s['wavelength'], 'src': None})
    kept = []
    for k, op in enumerate(plan['ops']):
        ctx.op_index = k
        g = nprng(op['seed'])
        if op['op'] in ('solve', 'factor'):
            inst = insts[op['inst']]
            mtype, dtype = inst['mtype'], (complex if inst['mtype'] in COMPLEX else float)
            spec = cfg['mats'][op['mat']]
            rel = op['rel']
            if rel == 'back' and inst['past']:
                mat = inst['past'][g.randint(len(inst['past']))]
            elif op['mat'] not in inst['mats']:
                mat = base_matrix(spec, mtype)
            elif rel == 'edit-in-place':
                mat = inst['mats'][op['mat']]
                if mtype in (13, 11):
                    mat.data[g.randint(mat.nnz)] *= 1.2
                else:
                    mat.data *= 1.5
            else:
                mat = relate(rel, inst['mats'][op['mat']], spec, mtype, g)
            csr = sp.csr_matrix(mat)
            csr.sum_duplicates()
            if rel not in ('coo-split', 'csc', 'unsorted') and rel != 'back':
                inst['mats'][op['mat']] = mat if sp.isspmatrix_csr(mat) else csr
            inst['past'] = (inst['past'] + [mat])[-4:]
            truth = csr.copy()
            if op['op'] == 'factor':
                if inst['solver'] is not None:
                    inst['solver'].factor(csr)
                    inst['used'] = True
                ctx.log(k, 'factor', op['inst'], rel, sig(truth.data))
                continue
            n = truth.shape[0]
            rhs = make_rhs(op['rhs'], n, dtype, g, inst['rhs'])
            inst['rhs'] = rhs
            b0 = rhs.copy()
            if inst['solver'] is None:
                x = spsolve_pardiso(mat, rhs)
            else:
                x = inst['solver'].solve(sp.csr_matrix(mat) if not sp.isspmatrix_csr(mat) else mat, rhs)
            inst['used'] = True
            x = np.asarray(x)
            if b0.shape == (n, 1):
                ctx.check(x.size == n, 'wrong-shape', f'{x.shape}')
                got, b = x.ravel(), b0.ravel()
            else:
                ctx.check(x.shape == b0.shape, 'wrong-shape', f'solution {x.shape} of rhs {b0.shape}')
                got, b = x, b0
            be = backward_error(truth, got, b)
            ctx.max_err = max(ctx.max_err, be / 1e-9)
            ctx.check(be < 1e-9, 'wrong-solution',
                      f'the result does not solve the given system (relative residual {be:.3g}; matrix: {rel} of the '
                      f'previous one, mtype {mtype}, n {n}, rhs {op["rhs"]})')
            after = sp.csr_matrix(mat)
            ctx.check(abs(after - truth).nnz == 0 or abs(after - truth).max() == 0, 'input-modified', 'matrix')
            ctx.same(rhs, b0, 'input-modified', 'rhs')
            kept.append((x, x.copy()))
            ctx.state(op['inst'], rel, op['rhs'], n > 100, mtype)
            ctx.log(k, 'solve', op['inst'], rel, op['rhs'], sig(x))
        elif op['op'] == 'free':
            inst = insts[op['inst']]
            if inst['solver'] is not None and inst['used']:
                inst['solver'].free(op['complete'])
                inst['used'] = False
                ctx.state('free', op['inst'])
                ctx.log(k, 'free', op['inst'])
        elif op['op'] == 'perturb-sim':
            s = sims[op['sim']]
            eps = s['eps']
            if op['how'] == 'one':
                eps[g.randint(eps.shape[0]), g.randint(eps.shape[1])] += 1
            elif op['how'] == 'region':
                i, j = g.randint(0, eps.shape[0] - 4), g.randint(0, eps.shape[1] - 4)
                eps[i:i + 4, j:j + 4] = g.choice([1., 2.25, 12.])
            elif op['how'] == 'wavelength':
                s['wl'] = s['sim'].wavelength = float(g.choice([1.2, 1.31, 1.45, 1.55]))
            else:
                eps[:] = 1 + 5 * (g.uniform(0, 1, eps.shape) > .5)
            s['sim'].eps = eps.copy()
            ctx.log(k, 'perturb-sim', op['sim'], op['how'])
        elif op['op'] == 'fdfd':
            s = sims[op['sim']]
            if s['src'] is None or op['src'] == 'new':
                s['src'] = np.zeros(s['eps'].shape, complex)
                s['src'][g.randint(6, s['eps'].shape[0] - 6), g.randint(6, s['eps'].shape[1] - 6)] = 1 + .5j
            ref = RefGrid(*s['ref'], s['eps'], s['wl'], *s['pml'])
            f = s['sim'].solve(s['src'], tm_2d=op['pol'] == 'tm')
            ref.check_fields(ctx, f, s['src'], op['pol'], 'wrong-fields', msg=f'sim {op["sim"]} {op["pol"]}')
            kept.append((f, f.copy()))
            ctx.state('fdfd', op['sim'], op['pol'])
            ctx.log(k, 'fdfd', op['sim'], op['pol'], sig(f))
    for x, y in kept:
        ctx.same(x, y, 'result-changed-later', 'a returned solution was changed by a later operation:')
    from ..seams import S
    ctx.check(not S.misuse, 'native-misuse', lambda: '; '.join(S.misuse))
