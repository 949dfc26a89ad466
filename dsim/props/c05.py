"""C05: every edit of the permittivity takes effect in everything computed afterwards."""
import numpy as np

from ..core import nprng, sig
from ..ref import RefFDTD, RefGrid, RefModes, backward_error

ID = 'C05'
TITLE = 'Every edit of the permittivity takes effect everywhere'
LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
NOTE = 'Seeded search over histories of edits and uses against a reference permittivity; not exhaustive.'
RULE = ('one simulation or mode solver (1d, 2d or 3d, equal or unequal spacings, with or without PML, both FDTD backends) with 6-24 operations: '
        'edits in every supported way (also ones that keep the sum or the extremes), edits that fail, and uses of the permittivity, in any order.')
STATE = 'hash of (kind, last two edits, use)'
REAL = ['simphox.grid', 'simphox.fdfd', 'simphox.fdtd', 'simphox.mode', 'simphox.sim', 'simphox.mkl', 'Intel MKL Pardiso',
        'scipy eigs']
STUB = ['dphox patterns (a stand-in with bounds, mask and ports: dphox is not installed)', 'ARPACK start vector (seeded)']
ASSUMES = ['edits are made between, not during, other operations']
PROPERTY = {
    'statement': 'However the permittivity of a grid, simulation or mode solver was set and edited - constructor, '
                 'assignment to eps or to parts of it, fill, set_eps, add, block_design, in any order and also between '
                 'uses - everything computed afterwards (the averaged permittivity, operators, fields, time steps, modes, '
                 'mode libraries, port cross sections, mask functions, simulations made from it) is what a new object '
                 'with that permittivity gives. An edit changes the requested region and nothing else, and a rejected '
                 'edit changes nothing.',
    'quantifier': {'over': ['histories'],
                   'text': 'all histories of edits and uses of one grid, simulation or mode solver'},
    'why_tests_cant': 'The tests build a permittivity once and use it once; a stale copy (cached average, operator or '
                      'mode) only shows when an edit follows a use.',
    'anchors': {
        'files': ['simphox/grid.py', 'simphox/fdfd.py', 'simphox/fdtd.py', 'simphox/mode.py', 'simphox/sim.py',
                  'simphox/utils.py'],
        'state': [{'name': 'permittivity', 'meaning': 'relative permittivity of each cell', 'where': 'simphox/grid.py Grid.eps'}],
        'mechanism': [{'name': 'averages and operators follow eps', 'where': 'simphox/grid.py YeeGrid.eps_t, simphox/fdfd.py mat'},
                      {'name': 'modes are looked up by permittivity', 'where': 'simphox/sim.py SimGrid.modes'}],
        'observe_at': ['eps, eps_t, mask, mask_fn, mat, solve, step, modes'],
        'hook_needed': None},
}
D = .1
KINDS = {
    'fdfd2': dict(shape=(14, 12), uses=['solve', 'solve', 'mat', 'modes', 'clone', 'convert']),
    'fdfd2p': dict(shape=(16, 14), pml=(.4, .4), uses=['solve', 'solve', 'mat', 'clone', 'convert']),
    'fdfd3': dict(shape=(6, 5, 4), uses=['solve', 'mat', 'modes', 'clone', 'convert']),
    'fdtd2': dict(shape=(12, 10), uses=['step', 'step', 'modes']),
    'fdtd2p': dict(shape=(14, 12), pml=(.4, .4), uses=['step', 'step']),
    'fdtd2j': dict(shape=(8, 7), uses=['step']),
    'fdtd3': dict(shape=(6, 5, 7), uses=['step', 'modes']),
    'mode1': dict(shape=(24,), uses=['wgm', 'wgm', 'library']),
    'mode2': dict(shape=(10, 8), uses=['wgm', 'wgm', 'library']),
    'sim2': dict(shape=(14, 12), uses=['modes', 'clone']),
    'sim2p': dict(shape=(14, 12), pml=(.4, .4), uses=['clone']),
    'grid2': dict(shape=(14, 9), uses=[]),
    'grid3': dict(shape=(6, 5, 7), uses=[]),
    'grid1': dict(shape=(17,), uses=[]),
}


def setup():
    import simphox.fdfd, simphox.fdtd, simphox.mkl, simphox.mode, simphox.bpm  # noqa


def region(rng, shape):
    """Half-open pixel ranges; a zero width means a single pixel."""
    out = []
    for n in shape:
        w = rng.choice([0, 1, 2, 3, rng.randrange(1, n + 1)])
        w = min(w, n)
        lo = rng.randrange(0, n - max(w, 1) + 1)
        out.append([lo, w])
    return out


def gen(rng, tier):
    kind = rng.choice(list(KINDS))
    k = KINDS[kind]
    shape = list(k['shape'])
    nd = len(shape)
    spacing = D
    if kind in ('fdfd2p', 'fdtd2p', 'mode2', 'sim2') or kind[:4] in ('fdfd', 'fdtd', 'grid'):
        if rng.chance(.3):
            spacing = [round(D * rng.choice([1, .8] if 'pml' in k else [1, .8, 1.25]), 4) for _ in shape]
    ops = []
    edits = ['assign', 'part', 'part', 'set_eps', 'set_eps', 'scale', 'fill', 'cell', 'assign-view']
    # edits that keep the shape, extremes, sum or most of the permittivity
    edits += ['flip', 'swap', 'move', 'tiny', 'revert']
    edits += ['add', 'bad-add'] if nd > 1 else []
    edits += ['bad-set'] + (['block'] if kind in ('mode2', 'grid2') else [])
    for _ in range(rng.randrange(6, 24)):
        if rng.chance(.5):
            e = rng.choice(edits)
            op = {'op': e, 'seed': rng.seed32(), 'val': round(rng.uniform(1, 9), 3), 'region': region(rng, shape)}
            if e == 'fill':
                op['k'] = rng.choice([0, 0, rng.randrange(1, shape[-1] + 1), rng.randrange(1, shape[-1] + 3), -1])
            if e == 'block':
                op.update(w=rng.choice([2, 4]), h=2, sub=rng.randrange(1, 4), gap=rng.choice([0, 0, 2]),
                          rib=rng.choice([0, 1]), kind=rng.choice(['plain', 'vertical', 'lateral']),
                          sep=rng.choice([1, 2, [1, 1], [1, 2], [2, 1], [3, 1]]))
        else:
            op = {'op': 'use', 'use': rng.choice(k['uses'] * 2 + ['eps_t', 'mask_fn', 'mask']
                                                 if kind[:4] != 'grid' else ['mask_fn', 'mask']),
                  'seed': rng.seed32(), 'pol': rng.choice(['tm', 'te']), 'region': region(rng, shape),
                  'axis': rng.randrange(nd)}
        ops.append(op)
    if rng.chance(.5) and k['uses']:  # the same use after each edit
        probe = {'op': 'use', 'use': rng.choice(k['uses']), 'seed': rng.seed32(), 'pol': rng.choice(['tm', 'te']),
                 'region': region(rng, shape), 'axis': rng.randrange(nd)}
        ops = [o for op in ops if op['op'] != 'use' for o in (op, probe)]
    return {'config': {'levels': rng.chance(.5), 'kind': kind, 'shape': shape, 'spacing': spacing, 'pml_params': rng.choice([[4, -16, 1.], [4, -16, 1.], [3, -13, 1.2]]), 'init': rng.choice(['scalar', 'array', 'array']),
                       'seed': rng.seed32(), 'early': rng.chance(.5)}, 'ops': ops}


def box(reg, shape, spacing):
    """center and size (3d, in length units) of a pixel region, and the region as slices of the full shape."""
    center, size, sl = [0, 0, 0], [0, 0, 0], []
    for i, ((lo, w), n) in enumerate(zip(reg, shape)):
        w = min(w, n)
        lo = min(lo, n - max(w, 1))
        center[i] = (lo + w // 2) * spacing[i]
        size[i] = w * spacing[i]
        sl.append(slice(lo, lo + max(w, 1)))
    return tuple(center), tuple(size), tuple(sl)


class Pattern:
    """What Grid.add needs of a dphox pattern."""

    def __init__(self, mask, bounds, port):
        self._mask, self.bounds, self.port = mask, bounds, port
        self.size = (bounds[2] - bounds[0], bounds[3] - bounds[1])

    def mask(self, shape, spacing):
        assert tuple(shape) == self._mask.shape
        return self._mask.copy()


class PPort:
    def __init__(self, x, y, a, w):
        self.x, self.y, self.a, self.w, self.xya = x, y, a, w, (x, y, a)


def make(kind, shape, spacing, eps, pml, params=(4, -16, 1.)):
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Grid
    from simphox.mode import ModeSolver
    from simphox.sim import SimGrid
    sp = np.array(spacing) if isinstance(spacing, list) else spacing
    size = tuple(n * d for n, d in zip(shape, np.ones(len(shape)) * sp))
    if kind.startswith('fdfd'):
        return FDFD(size, sp, eps=eps, wavelength=.8, pml=pml, pml_params=params, pml_sep=3)
    if kind.startswith('fdtd'):
        return FDTD(size, sp, eps=eps, pml=pml, use_jax=kind.endswith('j'))
    if kind.startswith('mode'):
        return ModeSolver(size, sp, 1.2, eps=eps)
    if kind.startswith('sim'):
        return SimGrid(size, sp, eps=eps, pml=pml, pml_params=params, pml_sep=3)
    return Grid(size, sp, eps=eps)


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    from simphox.mode import ModeLibrary
    from ..seams import S
    cfg = plan['config']
    kind, shape = cfg['kind'], tuple(cfg['shape'])
    nd = len(shape)
    pml, params = KINDS[kind].get('pml'), tuple(cfg['pml_params'])
    spacing = np.ones(nd) * np.array(cfg['spacing'])
    size = tuple(n * d for n, d in zip(shape, spacing))
    g = nprng(cfg['seed'])
    S.eigs_seed = 9

    def draw(gg, shp):
        """A permittivity: values in [1, 6], or a few exact levels (sums do not depend on the order then)."""
        return gg.choice([1., 2.25, 4., 5.5], shp) if cfg.get('levels') else gg.uniform(1, 6, shp)
    if cfg['init'] == 'scalar':
        m = np.full(shape, 2.25)
        sim = make(kind, shape, cfg['spacing'], 2.25, pml, params)
    else:
        m = draw(g, shape)
        sim = make(kind, shape, cfg['spacing'], m.copy(), pml, params)
    last = ('init', 'init')
    snapshots = []
    libs = []

    def looks():
        ctx.check(np.shape(sim.eps) == shape, 'wrong-eps', lambda: f'eps has shape {np.shape(sim.eps)}, expected {shape}')
        ctx.close(sim.eps, m, 'wrong-eps', tol=1e-12, msg=f'eps after {last}')

    def use(op):
        nonlocal snapshots
        gg = nprng(op['seed'])
        what, msg = op['use'], f'{op["use"]} after {last}'
        ref = RefGrid(size, spacing, m, wavelength=2 * np.pi / sim.k0 if hasattr(sim, 'k0') else None, pml=pml, pml_params=params)
        if what == 'eps_t':
            ctx.close(np.asarray(sim.eps_t), ref.eps_t(), 'stale-eps', tol=1e-12, msg=msg)
        elif what in ('mask', 'mask_fn'):
            center, sz, sl = box(op['region'], shape, spacing)
            want = np.zeros(shape)
            want[sl] = 1
            if what == 'mask':
                ctx.close(np.asarray(sim.mask(center, sz)).reshape(shape), want, 'wrong-mask', tol=1e-12, msg=msg)
            else:
                fn = sim.mask_fn(sz, center)
                snapshots.append((fn, m.copy(), want))
                for fn, m0, w in snapshots[-3:]:
                    rho = gg.uniform(1, 5, shape)
                    ctx.close(np.asarray(fn(rho)), m0 * (1 - w) + rho * w, 'wrong-mask-function', tol=1e-6, msg=msg)
        elif what == 'mat':
            pols = ['3d'] if nd == 3 else ['tm', 'te']
            for p in pols:
                a = {'3d': lambda: sim.mat, 'tm': lambda: sim.mat_hz, 'te': lambda: sim.mat_ez}[p]()
                v = gg.standard_normal(a.shape[0])
                ctx.close(a @ v, ref.matrix(p) @ v, 'stale-operator', tol=1e-11, msg=f'{msg} ({p})')
        elif what == 'convert':
            f = gg.standard_normal((3,) + ref.shape3) + 1j * gg.standard_normal((3,) + ref.shape3)
            given = f.ravel() if op['pol'] == 'te' else f
            ctx.close(sim.h2e(given), ref.curl_h(f) / (1j * ref.k0 * ref.eps_t()), 'stale-fields', tol=1e-11, msg=msg + ' h2e')
            ctx.close(sim.e2h(given), ref.curl_e(f) / (1j * ref.k0), 'stale-fields', tol=1e-11, msg=msg + ' e2h')
        elif what == 'solve':
            p = '3d' if nd == 3 else op['pol']
            src = np.zeros(((3,) if nd == 3 else ()) + shape, complex)
            src.flat[gg.randint(src.size)] = 1 + 1j
            try:
                f = sim.solve(src, tm_2d=op['pol'] == 'tm')
            except RuntimeError:  # the native solver meets zero pivots for some permittivities: then always
                fresh = make(kind, shape, cfg['spacing'], m.copy(), pml, params)
                ctx.expect(lambda: fresh.solve(src, tm_2d=op['pol'] == 'tm'), RuntimeError, 'stale-fields', msg)
                return
            ref.check_fields(ctx, f, src, p, 'stale-fields', msg=msg)
        elif what == 'clone':
            other = FDFD.from_simgrid(sim, 1.1)
            ref = RefGrid(size, spacing, m, wavelength=1.1, pml=pml, pml_params=params)
            ctx.check(other.pml_sep == 3, 'stale-clone', f'{msg}: separation from the PML {other.pml_sep}')
            ctx.close(np.asarray(other.eps), m, 'stale-clone', tol=1e-12, msg=msg)
            src = np.zeros(((3,) if nd == 3 else ()) + shape, complex)
            src.flat[gg.randint(src.size)] = 1 + 1j
            try:
                f = other.solve(src, tm_2d=op['pol'] == 'tm')
            except RuntimeError:
                return
            ref.check_fields(ctx, f, src, '3d' if nd == 3 else op['pol'], 'stale-clone', msg=msg)
        elif what == 'step':
            rf = RefFDTD(size, spacing, m, pml)
            st = sim.zero_state
            e, h = [gg.standard_normal((3,) + rf.grid.shape3) + 1j * gg.standard_normal((3,) + rf.grid.shape3)
                    for _ in range(2)]
            rf.e, rf.h = e.copy(), h.copy()
            st = (sim.xp.array(e), sim.xp.array(h)) + tuple(st[2:])
            reg = (2, gg.randint(shape[0]), slice(0, 3)) + ((0,) if nd < 3 else (1,))
            src = [(gg.standard_normal(3), None, reg)]
            for _ in range(2):
                st = sim.step(st, src)
                rf.step(src)
            ctx.close(np.asarray(st[0]), rf.e, 'stale-step', tol=1e-10, msg=msg + ' e')
            ctx.close(np.asarray(st[1]), rf.h, 'stale-step', tol=1e-10, msg=msg + ' h')
        elif what in ('wgm', 'library'):
            num = 2
            refm = RefModes(m, spacing if nd > 1 else spacing[0], sim.wavelength, num)
            v = gg.standard_normal(refm.c.shape[0])
            if what == 'wgm':
                ctx.close(sim.waveguide_mode_matrix @ v, refm.c @ v, 'stale-operator', tol=1e-10, msg=msg)
                if refm.betas.size < num or np.ptp(m) == 0:  # the shift of the eigenvalue solver is an eigenvalue then
                    return
                betas, modes = sim.solve(num)
                ctx.close(betas, refm.betas, 'stale-modes', tol=1e-6, msg=msg)
            else:
                if refm.betas.size < num or np.ptp(m) == 0:
                    return
                lib = ModeLibrary(sim, num)
                ctx.close(lib.betas, refm.betas, 'stale-modes', tol=1e-6, msg=msg)
                for k in range(num):
                    f = np.asarray(lib.modes[k])[:refm.c.shape[0]]
                    ctx.check(backward_error(refm.c, f, refm.betas[k] ** 2 * f) < 1e-6, 'stale-modes',
                              f'{msg}: mode {k} is not a mode of this cross section')
                    # the electric field of the mode is computed from the permittivity
                    h = lib.h(k)
                    e = lib.e(k)
                    refm.modes[k] = lib.modes[k]
                    ctx.close(e, refm.e(k), 'stale-modes', tol=1e-6, msg=msg + ' e')
                    ctx.close(h, refm.h(k), 'stale-modes', tol=1e-6, msg=msg + ' h')
        elif what == 'modes':
            ax = op['axis'] if nd == 2 else op['axis'] % 2
            reg = [[0, n] for n in shape]
            lo = op['region'][ax][0]
            reg[ax] = [lo, 0]
            center, sz, sl = box(reg, shape, spacing)
            cross = m[tuple(s if i != ax else s.start for i, s in enumerate(sl))]
            d = [spacing[i] for i in range(nd) if i != ax]
            refm = RefModes(cross, d[0] if len(d) == 1 else np.array(d), 1.2, 1)
            if refm.betas.size < 1 or np.ptp(cross) == 0:
                return
            xs = sim.modes(center, sz, wavelength=1.2, num_modes=1)
            ctx.close(xs.io.betas, refm.betas, 'stale-modes', tol=1e-6, msg=msg)
            f = np.asarray(xs.io.modes[0])[:refm.c.shape[0]]
            ctx.check(backward_error(refm.c, f, refm.betas[0] ** 2 * f) < 1e-6, 'stale-modes',
                      f'{msg}: not a mode of this cross section')
            ctx.close(np.asarray(xs.io.eps), cross, 'stale-modes', tol=1e-12, msg=msg + ' permittivity of the library')
        ctx.log('use', what, 'after', *last)
        ctx.state(kind, last, what)

    if cfg['early']:
        for u in dict.fromkeys(KINDS[kind]['uses'] + (['eps_t'] if kind[:4] != 'grid' else [])):
            use({'use': u, 'seed': cfg['seed'], 'pol': 'tm', 'region': [[0, 1]] * nd, 'axis': 0})
    past = before = m.copy()
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        gg = nprng(op['seed'])
        k = op['op']
        if k == 'use':
            use(op)
            continue
        center, sz, sl = box(op['region'], shape, spacing)
        val = op['val']
        past, before = before, m.copy()
        if k == 'assign':
            m = draw(gg, shape)
            sim.eps = m.copy()
        elif k == 'assign-view':  # not contiguous
            big = draw(gg, tuple(n + 2 for n in shape[::-1])).T
            m = big[tuple(slice(1, -1) for _ in shape)].copy()
            sim.eps = big[tuple(slice(1, -1) for _ in shape)]
        elif k == 'part':
            block = draw(gg, m[sl].shape)
            m[sl] = block
            sim.eps[sl] = block
        elif k == 'flip':  # in place or as a new array
            ax = gg.randint(nd)
            m = np.flip(m, ax).copy() if gg.randint(2) else np.roll(m, 1 + gg.randint(3), ax)
            if gg.randint(2):
                sim.eps = m.copy()
            else:
                sim.eps[...] = m
        elif k == 'swap':
            a, b = (tuple(gg.randint(n) for n in shape) for _ in range(2))
            m[a], m[b] = m[b], m[a]
            sim.eps[a], sim.eps[b] = m[a], m[b]
        elif k == 'move':  # a box moves by a cell
            ax = gg.randint(nd)
            m[sl] = np.roll(m[sl], 1, ax)
            sim.eps[sl] = m[sl]
        elif k == 'tiny':
            idx = tuple(s.start for s in sl)
            m[idx] *= 1 + 2.**-14
            sim.eps[idx] = m[idx]
        elif k == 'revert':  # the permittivity before the last edit
            m = past.copy()
            sim.eps = m.copy()
        elif k == 'cell':
            idx = tuple(s.start for s in sl)
            m[idx] = val
            sim.eps[idx] = val
        elif k == 'scale':
            m *= 1.25
            if np.max(m) > 20:
                m /= 4
                sim.eps *= 1.25 / 4
            else:
                sim.eps *= 1.25
        elif k == 'set_eps':
            m[sl] = val
            r = sim.set_eps(center, sz, val)
            ctx.check(r is sim, 'not-chained', 'set_eps does not return the grid')
        elif k == 'fill':
            if op['k'] <= 0:
                m = np.full(shape, val)
                r = sim.fill(0 if op['k'] == 0 else -1., val)
            else:
                m[..., :op['k']] = val
                r = sim.fill((op['k'] + .25) * spacing[-1], val)
            ctx.check(r is sim, 'not-chained', 'fill does not return the grid')
        elif k == 'add':
            pm = (gg.uniform(0, 1, shape[:2]) > .5).astype(int)
            port = {'a0': PPort(.3, .4, 180, .2), 'b0': PPort(.5, .4, 0, .3)}
            z0, z1 = op['region'][-1][0], op['region'][-1][0] + max(1, op['region'][-1][1])
            zmin, t = ((z0 + .25) * spacing[2], (z1 - z0) * spacing[2]) if nd == 3 else (0., .22)
            r = sim.add(Pattern(pm, (0, 0, size[0], size[1]), port), val, zmin, t)
            ctx.check(r is sim, 'not-chained', 'add does not return the grid')
            if nd == 2:
                m[pm == 1] = val
            else:
                m[pm == 1, z0:z1] = val
            ctx.check(set(sim.port) == set(port), 'wrong-ports', lambda: f'ports {list(sim.port)}')
            for name, p in port.items():
                q = sim.port[name]
                got = [q.x, q.y, q.a, q.w, q.z, q.h]
                ctx.close(np.array(got, float), np.array([p.x, p.y, p.a, p.w, zmin + t / 2, t]), 'wrong-ports', msg=name)
            sim.port = {}
        elif k == 'bad-add':
            pm = np.ones(shape[:2], int)
            ctx.expect(lambda: sim.add(Pattern(pm, (-1., 0, size[0] - 1, size[1]), {}), val, 0., .1), ValueError,
                       'bad-edit-accepted', 'a pattern beyond the grid')
        elif k == 'bad-set':
            ctx.expect(lambda: sim.set_eps(center[:2], sz, val), (ValueError, IndexError), 'bad-edit-accepted', 'a 2d centre')
        elif k == 'block':
            block_edit(sim, m, op, shape, spacing, ctx)
        last = (last[1], k)
        ctx.log('edit', k, sig(m))
        looks()
        ctx.state(kind, last)
    for u in dict.fromkeys(KINDS[kind]['uses'] + (['eps_t'] if kind[:4] != 'grid' else []) + ['mask_fn']):
        use({'use': u, 'seed': cfg['seed'] + 1, 'pol': 'te', 'region': [[0, n - 1] for n in shape], 'axis': nd - 1})
    looks()


def block_edit(sim, m, op, shape, spacing, ctx):
    """block_design: fill, then a waveguide (or a pair), then optional blocks, on positions away from rounding ties."""
    from simphox.utils import Box, Material
    dx, dy = spacing
    u = dy if op['kind'] == 'vertical' else dx
    sep = tuple(x * u for x in op['sep']) if isinstance(op['sep'], list) else op['sep'] * u
    s1, s2 = sep if isinstance(sep, tuple) else (sep, sep)
    w, h = op['w'] * dx, op['h'] * dy
    wg = Box((w, h), Material('wg', op['val']))
    blk = Box((2 * dx, 2 * dy), Material('block', op['val'] + 1))
    sub, rib, gap = op['sub'] * dy + dy / 4, op['rib'] * dy, op['gap'] * dx
    kw = {}
    if op['kind'] != 'plain':
        kw = dict(block=blk, sep=sep, vertical=op['kind'] == 'vertical')
    wg_height = op['sub'] * dy
    sim.block_design(wg, wg_height=wg_height, sub_eps=1.5, sub_height=sub, gap=gap, rib_y=rib, **kw)

    def paint(cx, cy, sx, sy, val):
        c = [int(np.around(v / D)) for v, D in zip((cx, cy), spacing)]
        s = [int(np.around(v / D)) for v, D in zip((sx, sy), spacing)]
        sl = tuple(slice(max(a - b // 2, 0), max(a - b // 2 + b, 0)) if b > 0 else a for a, b in zip(c, s))
        m[sl] = val
    if rib > 0:
        m[..., :int((rib + sub) / dy)] = op['val']
    m[..., :int(sub / dy)] = 1.5
    cx = shape[0] * dx / 2
    d = gap / 2 + w / 2 if gap > 0 else 0
    boxes = [(cx - d, wg_height + h / 2, w, h, op['val']), (cx + d, wg_height + h / 2, w, h, op['val'])]
    if op['kind'] == 'vertical':
        boxes += [(cx + s * d, wg_height + h + sep + dy, 2 * dx, 2 * dy, op['val'] + 1)
                  for s, sep in ((-1, s1), (1, s2))]
    elif op['kind'] == 'lateral':
        boxes += [(cx - d - w / 2 - s1 - dx, wg_height + dy, 2 * dx, 2 * dy, op['val'] + 1),
                  (cx + d + w / 2 + s2 + dx, wg_height + dy, 2 * dx, 2 * dy, op['val'] + 1)]
    for b in boxes:
        paint(*b)
