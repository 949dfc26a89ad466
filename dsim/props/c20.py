"""C20: mode solvers and libraries hold the guided modes of their cross section at their wavelength."""
import numpy as np

from ..core import nprng, sig
from ..ref import RefModes, backward_error, poynting_z

ID = 'C20'
TITLE = 'Mode libraries hold the guided modes at their wavelength'
LEVEL = 'exploration'
RUNS = {'quick': 300, 'thorough': 9000}
TIME_UNIT = 'mode solves'
NOTE = 'Seeded search over cross sections, wavelength histories, start vectors, failures and interrupts; not exhaustive.'
RULE = ('one cross section (1d or 2d, equal or unequal spacings) with a solver and 1-2 libraries, and 4-14 operations: new '
        'wavelengths, sweeps (with progress bars), edits (also in place), single solves with guesses, reading of everything a library offers, '
        'each with drawn start vectors, some failing in the eigensolver, the progress bar or at a drawn line.')
STATE = 'hash of (dimensions, last operations, faults)'
REAL = ['simphox.mode', 'simphox.grid', 'simphox.utils', 'scipy eigs (ARPACK)', 'JAX']
STUB = ['ARPACK start vector (seeded) and its failures', 'progress bars (failing stand-ins)']
ASSUMES = ['real permittivities without symmetry (no exactly degenerate modes)', 'a library owns the solver it was made from',
           'after an interrupt at an arbitrary line the library is judged from its next complete update on']
PROPERTY = {
    'statement': 'A mode solver or library holds, for its current permittivity and wavelength, the guided modes with the '
                 'largest propagation constants (with a guess, those closest to it): normalized eigenvectors of the documented '
                 'operator with their betas in decreasing order, fewer if fewer have a real beta. All that is read from a library '
                 '(E and H fields of both 1d polarizations, indices, phases, beat lengths, power, TE ratio, evolution, '
                 'measurement) belongs to these modes; a mode that is not there is refused. This holds for every structure '
                 '(1d, 2d, unequal spacings), start vector and history of wavelengths, edits (also in place), sweeps and reads; a failed update '
                 'leaves the library as it was, and a sweep gives the modes of each wavelength and leaves solver and libraries '
                 'as they were, also when it fails.',
    'quantifier': {'over': ['inputs', 'histories', 'fault_sequences'],
                   'text': 'all cross sections, start vectors, and histories of updates, sweeps, reads and failures'},
    'why_tests_cant': 'Tests solve a few symmetric structures once; the state that updates, sweeps and failures leave in a '
                      'library, unequal spacings and missing modes are not reached.',
    'anchors': {
        'files': ['simphox/mode.py', 'simphox/grid.py', 'simphox/utils.py'],
        'state': [{'name': 'modes and betas of a library', 'meaning': 'solution at the last wavelength', 'where': 'simphox/mode.py ModeLibrary._update_solve'}],
        'mechanism': [{'name': 'eigenproblem', 'where': 'simphox/mode.py ModeSolver.solve'},
                      {'name': 'sweep', 'where': 'simphox/mode.py ModeSolver.dispersion_sweep'}],
        'observe_at': ['ModeSolver.solve, dispersion_sweep, ModeLibrary methods'],
        'hook_needed': None},
}


def setup():
    import simphox.mode  # noqa


def gen(rng, tier):
    nd = rng.choice([1, 2, 2])
    shape = [rng.randrange(12, 60)] if nd == 1 else [rng.randrange(6, 12), rng.randrange(6, 12)]
    d = rng.choice([.05, .08, .1]) if nd == 1 else rng.choice([.1, .12, .15])
    spacing = [d] * nd if nd == 1 or rng.chance(.4) else [d, round(d * rng.choice([.7, 1.3, 1.5]), 4)]
    wl = lambda: round(rng.uniform(.9, 2.2), 3)  # noqa
    ops = []
    for _ in range(rng.randrange(4, 14)):
        k = rng.weighted([('update', 4), ('sweep', 2), ('edit', 1.5), ('solve', 2.5), ('read', 6), ('library', 1.2)])
        op = {'op': k, 'seed': rng.seed32(), 'lib': rng.randrange(2), 'wl': wl(), 'm': rng.choice([1, 2, 3, 4, 6, 8]),
              'wls': [wl() for _ in range(rng.randrange(0, 4))], 'pbar': rng.chance(.5),
              'what': rng.subset(['h', 'e', 'te', 'index', 'phase', 'beat', 'sz', 'ratio', 'evolve', 'measure', 'range'], .45, True),
              'guess': rng.choice([None, 'near', 'mid', 'above']), 'jax': rng.chance(.1)}
        if rng.chance(.22) and k in ('update', 'sweep', 'solve'):
            op['fault'] = rng.choice([{'kind': 'eigs', 'exc': rng.choice(['noconv', 'MemoryError', 'KeyboardInterrupt']), 'skip': rng.randrange(2) if k == 'sweep' else 0},
                                      {'kind': 'pbar', 'at': rng.randrange(3)}, {'kind': 'line', 'line': rng.randrange(1, 120)}])
        ops.append(op)
    return {'config': {'nd': nd, 'shape': shape, 'spacing': spacing, 'seed': rng.seed32(), 'wl': wl(), 'm': rng.choice([1, 2, 3, 4, 6]),
                       'contrast': rng.choice([.4, 4, 10])}, 'ops': ops}


def structure(g, shape, contrast):
    e = g.uniform(1, 1.4, shape)
    for _ in range(g.randint(1, 3)):
        sl = []
        for n in shape:
            w = g.randint(2, max(3, n // 2))
            a = g.randint(0, n - w)
            sl.append(slice(a, a + w))
        e[tuple(sl)] += contrast
    return e


class Solution:
    """Reference: dense eigenpairs of the documented operator."""

    def __init__(self, eps, spacing, wl):
        d = spacing[0] if len(spacing) == 1 else tuple(spacing)
        self.ref = RefModes(eps, d, wl, 0)  # its modes are those of the library (a mode is defined up to its phase)
        self.k0 = self.ref.k0
        self.w = np.linalg.eigvals(self.ref.c) if self.ref.nd > 1 else np.linalg.eigvalsh(self.ref.c).astype(complex)
        self.eps_max = float(np.max(eps))

    def expected(self, m, guess=None):
        """betas that have to be found, or None if that is ambiguous to rounding."""
        sigma = guess ** 2 if guess else self.k0 ** 2 * self.eps_max
        order = np.argsort(np.abs(self.w - sigma))
        dist = np.abs(self.w - sigma)[order]
        got = self.w[order[:m]]
        if m < len(order) and dist[m] - dist[m - 1] < 1e-6 * abs(sigma):
            return None
        if guess is None and m < len(order) and np.sort(self.w.real)[::-1][m - 1] > got.real.min() + 1e-9 * sigma:
            return None  # modes beyond the bound of the indices
        if np.any(np.abs(got.imag) > 1e-9 * sigma) or np.any(np.abs(got.real) < 1e-6 * sigma):
            return None
        got = np.sort(got.real[got.real > 0])[::-1]
        near = np.sort(np.abs(self.w[:, None] - got[None]), axis=0)[1:2]
        if self.ref.nd > 1 and near.size and near.min() < 1e-5 * abs(sigma):
            return None  # nearly defective
        return np.sqrt(got)


def run(plan, ctx):
    from ..seams import Interrupter, S
    from simphox.grid import Grid
    from simphox.mode import ModeLibrary, ModeSolver
    from simphox.utils import Box, Material
    cfg = plan['config']
    nd, shape, spacing = cfg['nd'], tuple(cfg['shape']), cfg['spacing']
    size = tuple(n * d for n, d in zip(shape, spacing))
    g = nprng(cfg['seed'])
    eps = structure(g, shape, cfg['contrast'])
    mk = lambda e, wl: ModeSolver(size, tuple(spacing), wl, eps=e.copy())  # noqa
    S.eigs_seed = cfg['seed']
    n = int(np.prod(shape))
    cap = n - 2
    solver = mk(eps, cfg['wl'])
    state = {'solver': [eps, cfg['wl']]}
    libs, hist, kept = [], [], []

    def put(s, new, gs):
        """A new permittivity: another array, or an edit in place (of a part); returns what it is now."""
        how = gs.randint(3)
        if how == 0:
            s.eps = new.copy()
        elif how == 1:
            s.eps[...] = new
        else:
            cut = tuple(slice(None, q // 2) for q in shape)
            s.eps[cut] = new[cut]
        return np.array(s.eps)

    def check_pairs(betas, modes, eps, wl, m, msg, guess=None):
        ctx.sim_time += 1
        sol = Solution(eps, spacing, wl)
        want = sol.expected(m, guess)
        betas, modes = np.asarray(betas), np.asarray(modes)
        ctx.check(betas.ndim == 1 and modes.shape == (len(betas), n * (3 if nd == 2 else 1)), 'wrong-modes',
                  lambda: f'{msg}: betas of shape {betas.shape}, modes of shape {modes.shape}')
        if want is None:   # by rounding, or since eigenvalues that may be selected are complex
            ctx.probe('selection ambiguous')
            return None
        ctx.close(betas, want, 'wrong-modes', tol=3e-6, msg=f'{msg}: betas')
        ctx.check(np.all(np.diff(betas) <= 1e-12), 'wrong-modes', lambda: f'{msg}: betas are not sorted: {betas}')
        c = sol.ref.c
        for k, b in enumerate(betas):
            f = modes[k][:c.shape[0]]
            be = backward_error(c, f, b ** 2 * f)
            ctx.check(abs(np.linalg.norm(f) - 1) < 1e-6 and be < 2e-6, 'wrong-modes',
                      lambda: f'{msg}: mode {k} is no normalized solution (residual {be:.3g}, norm {np.linalg.norm(f):.6f})')
        r = sol.ref
        r.betas, r.modes = betas, modes
        if nd == 2:   # divergence of h vanishes
            for k, b in enumerate(betas):
                hz = (r.grid.fwd(modes[k][:n].reshape(*shape, 1), 0) + r.grid.fwd(modes[k][n:2 * n].reshape(*shape, 1), 1)).ravel() / (1j * b)
                ctx.close(modes[k][2 * n:], hz, 'wrong-modes', tol=1e-5, scale=float(np.abs(modes[k]).max()), msg=f'{msg}: h_z of mode {k}')
        return r

    def check_lib(lib, st, msg):
        """st: [eps, wavelength, max modes] it has to belong to."""
        r = check_pairs(lib.betas, lib.modes, st[0], st[1], st[2], msg)
        ctx.check(lib.num_modes == lib.m == len(lib.betas), 'wrong-modes', f'{msg}: number of modes')
        ctx.check(abs(lib.solver.wavelength - st[1]) < 1e-12 and abs(lib.solver.k0 - 2 * np.pi / st[1]) < 1e-9, 'wrong-wavelength',
                  lambda: f'{msg}: wavelength {lib.solver.wavelength}, expected {st[1]}')
        return r

    def faulty(op, fn):
        """Runs fn with the fault of the operation; whether it failed."""
        f = op.get('fault')
        it = Interrupter(f['line'] if f and f['kind'] == 'line' else None, KeyboardInterrupt)
        if f and f['kind'] == 'eigs':
            S.eigs_faults = [dict(f)]
        try:
            with it:
                return fn(), False
        except BaseException as e:  # noqa
            injected = 'injected' in str(e)
            if not injected:
                raise
            ctx.fault({'eigs': 'eigensolver', 'line': 'interrupt', 'pbar': 'progress bar fails'}[f['kind']])
            return None, True
        finally:
            S.eigs_faults = []

    def make_lib(m):
        s = mk(state['solver'][0], state['solver'][1])
        lib = ModeLibrary(s, m)
        libs.append([lib, [state['solver'][0], state['solver'][1], m], True])

    def block_lib(op, m, gs, msg):
        """A library for a cross section of blocks is the one for the permittivity of that cross section."""
        dx, dy = spacing
        what = dict(wg_height=2 * dy, sub_eps=float(gs.uniform(1, 2)), sub_height=float(gs.choice([2.25, 1.25])) * dy, rib_y=float(gs.choice([0, 1.25])) * dy)
        gap = float(gs.choice([0, 2])) * dx
        kind = gs.randint(3)
        if kind:
            what.update(sep=(float(gs.choice([1, 2])) * dx, float(gs.choice([1, 2])) * dx) if kind == 1 else (dy, 2 * dy), vertical=kind == 2)

        def boxes():
            kw = dict(waveguide=Box((2 * dx, 2 * dy), Material('wg', 4 + cfg['contrast'])), **what)
            if kind:
                kw['block'] = Box((2 * dx, 2 * dy), Material('block', 6.))
            return kw
        want = Grid(size, tuple(spacing)).block_design(gap=gap, **boxes()).eps
        if Solution(want, spacing, op['wl']).expected(1) is None or not len(Solution(want, spacing, op['wl']).expected(1)):
            return
        lib = ModeLibrary.from_block_design(size, tuple(spacing), num_modes=m, wavelength=op['wl'], coupling_gap=gap, **boxes())
        ctx.close(np.asarray(lib.eps), want, 'wrong-modes', tol=1e-12, msg=f'{msg}: permittivity of the block design')
        check_lib(lib, [want, op['wl'], m], f'{msg}: block design')

    if Solution(eps, spacing, cfg['wl']).expected(1) is None or not len(Solution(eps, spacing, cfg['wl']).expected(1)):
        ctx.probe('no guided mode')
        return
    make_lib(min(cfg['m'], cap))
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k, m = op['op'], min(op['m'], cap)
        S.eigs_seed = op['seed']
        gs = nprng(op['seed'])
        entry = libs[op['lib'] % len(libs)]
        lib, st, valid = entry
        msg = f'{nd}d {shape} {spacing} wl={st[1]} after {hist[-4:]} + {k}'
        if k == 'library':
            if len(libs) < 2:
                make_lib(m)
            if nd == 2:
                block_lib(op, m, gs, msg)
        elif k == 'edit':
            new = structure(gs, shape, cfg['contrast'])
            if op['jax'] or gs.uniform() < .5:   # the solver of a library: takes effect with its next update
                new = put(lib.solver, new, gs)
                st = [new, st[1], st[2]]
                entry[1], entry[2] = st, False
            else:
                new = put(solver, new, gs)
                state['solver'] = [new, state['solver'][1]]
        elif k == 'update':
            guided = Solution(st[0], spacing, op['wl']).expected(1)
            if guided is None or not len(guided):
                ctx.probe('no guided mode')
                continue
            out, failed = faulty(op, lambda: lib.update_wavelength(op['wl']))
            if failed and op['fault']['kind'] == 'line':
                lib.update_wavelength(op['wl'])
                failed = False
            elif not failed:
                ctx.check(out is lib, 'wrong-result', f'{msg}: update_wavelength returns the library')
            if not failed:
                entry[1], entry[2] = [st[0], op['wl'], st[2]], True
            if entry[2]:
                check_lib(lib, entry[1], msg + (' failed' if failed else ''))
        elif k == 'solve':
            s = lib.solver if gs.uniform() < .4 else solver
            e, wl = (st[0], st[1]) if s is lib.solver else state['solver']
            top = 2 * np.pi / wl * np.sqrt(e.max())
            guess = {None: None, 'near': .93 * top, 'mid': .6 * top, 'above': 1.05 * top}[op['guess']]
            guess = None if guess is None else float(guess * gs.uniform(.97, 1.03))
            out, failed = faulty(op, lambda: s.solve(m, guess) if guess else s.solve(m))
            if failed:
                out = s.solve(m, guess) if guess else s.solve(m)
            check_pairs(out[0], out[1], e, wl, m, f'{msg} {m} modes, guess {op["guess"]}{" again" if failed else ""}', guess)
            kept.append((out, [np.array(x) for x in out]))
        elif k == 'sweep':
            s = lib.solver if gs.uniform() < .4 else solver
            e, wl = (st[0], st[1]) if s is lib.solver else state['solver']
            f = op.get('fault') or {}

            def pbar(x):
                for j, y in enumerate(x):
                    if f.get('kind') == 'pbar' and j == f['at']:
                        raise KeyboardInterrupt('injected')
                    yield y
            wls = np.array(op['wls'])
            wk = wls.copy()
            bar = pbar if op['pbar'] or f.get('kind') == 'pbar' else None
            out, failed = faulty(op, lambda: s.dispersion_sweep(wls, m, bar))
            if failed and f['kind'] == 'line':
                s.wavelength = wl
                failed = False
                out = s.dispersion_sweep(wls, m)
            ctx.same(wls, wk, 'inputs-changed', f'{msg}: wavelengths')
            ctx.check(abs(s.wavelength - wl) < 1e-12, 'wrong-wavelength', lambda: f'{msg}: the solver is left at {s.wavelength}, it was at {wl}')
            if not failed:
                ctx.check(len(out) == len(wls), 'wrong-modes', f'{msg}: {len(out)} solutions of {len(wls)} wavelengths')
                for w, (b, v) in zip(op['wls'], out):
                    check_pairs(b, v, e, w, m, f'{msg} at {w}')
            if entry[2]:
                check_lib(lib, st, f'{msg}: library after the sweep')
        elif k == 'read':
            if not valid:
                continue
            r = check_lib(lib, st, msg)
            M = len(lib.betas)
            if not M or r is None:
                continue
            j = gs.randint(M)
            j2 = gs.randint(M)
            jdx = () if j == 0 and op['seed'] % 2 else (j,)   # the fundamental mode is the default
            for what in op['what']:
                mm = f'{msg}: {what} of mode {j} of {M}'
                if what == 'h':
                    ctx.close(lib.h(*jdx), r.h(j), 'wrong-field', tol=1e-6, msg=mm)
                elif what == 'e':
                    ctx.close(lib.e(*jdx), r.e(j), 'wrong-field', tol=1e-6, msg=mm)
                elif what == 'te' and nd == 1:
                    ctx.close(lib.h(*jdx, tm_2d=False), r.h(j, False), 'wrong-field', tol=1e-6, msg=mm + ' (h)')
                    ctx.close(lib.e(*jdx, tm_2d=False), r.e(j, False), 'wrong-field', tol=1e-6, msg=mm + ' (e)')
                elif what == 'index':
                    b = lib.betas
                    ctx.close([lib.beta(*jdx), lib.n(*jdx), *lib.ns], [b[j], b[j] / r.k0, *(b / r.k0)], 'wrong-index', tol=1e-12, msg=mm)
                elif what == 'phase':
                    x = gs.uniform(.1, 40)
                    ctx.close(lib.phase(x, *jdx), lib.betas[j] * x, 'wrong-index', tol=1e-12, msg=mm)
                elif what == 'beat' and M > 1:
                    b = lib.betas
                    ctx.close([lib.dbeta, lib.dn], [b[0] - b[1], (b[0] - b[1]) / r.k0], 'wrong-index', tol=1e-9, msg=mm)
                    if j != j2:
                        ctx.close(lib.beat_length(j, j2), 2 * np.pi / (b[j] - b[j2]), 'wrong-index', tol=1e-9, msg=mm)
                elif what == 'sz' and nd == 2:
                    ctx.close(lib.sz(*jdx), poynting_z(r.e(j), r.h(j)).squeeze(), 'wrong-field', tol=1e-6, msg=mm)
                elif what == 'ratio' and nd == 2:
                    p = [np.sum(np.abs(x) ** 2) for x in r.h(j)[:2]]
                    ctx.close(np.ravel(lib.te_ratio(*jdx)), [p[0] / sum(p)], 'wrong-index', tol=1e-9, msg=mm)
                elif what == 'evolve':
                    z = gs.uniform(0, 10, gs.randint(1, 4))
                    wt = tuple(gs.normal(size=min(M, gs.randint(1, 4))))
                    for use_h in (True, False):
                        f = r.h if use_h else r.e
                        want = sum(f(q)[..., None] * np.exp(1j * lib.betas[q] * z) * x for q, x in enumerate(wt))
                        ctx.close(lib.evolve(z, wt, use_h), want, 'wrong-field', tol=1e-6, msg=mm)
                elif what == 'measure':
                    for tm in ((True, False) if nd == 1 else (True,)):
                        em, hm = r.e(j, tm), r.h(j, tm)
                        sm = np.sum(poynting_z(em, hm))
                        if abs(sm) < 1e-6 * np.sum(np.abs(poynting_z(em, hm))):
                            continue
                        fn = lib.measure_fn(*jdx, use_jax=op['jax'], tm_2d=tm)
                        ctx.close(fn(em, hm), [1, 0], 'wrong-measure', tol=1e-6, scale=1, msg=mm + ' of itself')
                        ctx.close(fn(em, -hm), [0, 1], 'wrong-measure', tol=1e-6, scale=1, msg=mm + ' of itself backward')
                        e2 = gs.normal(size=em.shape) + 1j * gs.normal(size=em.shape)
                        h2 = gs.normal(size=em.shape) + 1j * gs.normal(size=em.shape)
                        a, b = np.sum(poynting_z(e2, hm)) / sm / 2, (np.sum(poynting_z(em, h2)) / sm).conj() / 2
                        ctx.close(fn(e2, h2), [a + b, a - b], 'wrong-measure', tol=1e-5, msg=mm)
                elif what == 'range':
                    for fn in (lib.h, lib.e, lib.beta, lib.n, lib.measure_fn):
                        ctx.expect(lambda: fn(M), (ValueError, IndexError), 'missing-mode', f'{mm}: mode {M}')
            check_lib(lib, st, f'{msg}: after reading')
        for lb, s_, ok in libs:
            if lb is not lib and ok:
                check_lib(lb, s_, f'{msg}: another library')
        ctx.check(abs(solver.wavelength - state['solver'][1]) < 1e-12 and np.array_equal(solver.eps, state['solver'][0]), 'wrong-wavelength', f'{msg}: solver')
        for out, copy in kept[-3:]:
            for a, b in zip(out, copy):
                ctx.same(a, b, 'result-changed', msg)
        hist.append(k)
        ctx.state(nd, hist[-2:], (op.get('fault') or {}).get('kind'))
        ctx.log(k, len(lib.betas), sig(lib.betas, 5))
