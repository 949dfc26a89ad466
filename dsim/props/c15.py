"""C15: optimizations change the permittivity only in the design boxes and keep the requested symmetries."""
import numpy as np

from ..core import nprng, sig
from .optsim import Bar

ID = 'C15'
TITLE = 'Optimizations change only the design boxes and keep the requested symmetries'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 70, 'thorough': 6000}
TIME_UNIT = 'iterations of the optimizer'
NOTE = 'Seeded search over design boxes, symmetries, their order, grids, optimizations, edits and interruptions; not exhaustive.'
RULE = ('1-2 grids or simulations with their own transform (mask of one or several boxes in pixels or in units of length, '
        'mask of the grid, symmetry, smoothing in a drawn order) over shared parameters, and 1-3 optimizations, complete or '
        'interrupted, between which the boxes, arrays and grids that the constraints were made from are edited.')
STATE = 'hash of (kinds of constraint, symmetries, parity of the size, faults)'
REAL = ['simphox.transform', 'simphox.opt', 'simphox.grid', 'simphox.utils.Box', 'simphox.fdfd', 'simphox.sim', 'JAX', 'Intel MKL Pardiso']
STUB = ['progress bar (recording or failing stand-in)', 'ARPACK start vector (seeded)']
ASSUMES = ['2D', 'a single orthogonal symmetry together with a diagonal one is not requested (the two do not hold at once, by the tests)',
           'pixels which are cut by the edge of a mask of a grid may belong to either side']
PROPERTY = {
    'statement': 'Whenever the permittivity is looked at during or after an optimization, complete or interrupted, it is '
                 'the initial one outside of the design region (the union of the boxes of get_mask_fn, each from the pixel of its '
                 'min corner up to that of its max corner, the region of Grid.mask_fn) and follows the transformed parameters inside, and it has the symmetries that '
                 'get_symmetry_fn was asked for (an axis, both axes, diagonals, or both axes and diagonals; averaged or '
                 'not; even and odd sizes). Editing the boxes, arrays or grid later does not move these constraints.',
    'quantifier': {'over': ['inputs', 'configurations', 'crash_points', 'histories'],
                   'text': 'all design boxes, symmetries, grids, parameters, optimizations and points of interruption'},
    'why_tests_cant': 'Tests apply the functions to one array each, with odd sizes and averages only; a constraint must '
                      'hold for all parameters an optimizer can reach, and survive edits of what it was made from.',
    'anchors': {
        'files': ['simphox/transform.py', 'simphox/opt.py', 'simphox/grid.py', 'simphox/utils.py'],
        'state': [{'name': 'masks', 'meaning': 'where the design may change', 'where': 'simphox/transform.py get_mask_fn, simphox/grid.py mask_fn'}],
        'mechanism': [{'name': 'symmetries', 'where': 'simphox/transform.py get_symmetry_fn'},
                      {'name': 'boxes', 'where': 'simphox/utils.py Box'}],
        'observe_at': ['sim.eps during opt_run, OptRecord.eps'],
        'hook_needed': None},
}
D = .1
SYMS = [('ortho_x',), ('ortho_y',), ('ortho_x', 'ortho_y'), ('diag_p',), ('diag_n',), ('diag_p', 'diag_n'),
        ('ortho_x', 'ortho_y', 'diag_p'), ('ortho_x', 'ortho_y', 'diag_n'), ('ortho_x', 'ortho_y', 'diag_p', 'diag_n')]
FLIPS = {'ortho_x': lambda x: x[::-1], 'ortho_y': lambda x: x[:, ::-1], 'diag_p': lambda x: x.T, 'diag_n': lambda x: x[::-1, ::-1].T}


def setup():
    import simphox.opt, simphox.fdfd, simphox.mkl, simphox.transform  # noqa


def draw_tf(rng, shape):
    square = shape[0] == shape[1]
    sym = rng.choice([s for s in SYMS if square or not any('diag' in x for x in s)]) if rng.chance(.75) else ()
    mask = rng.weighted([('boxes', 4), ('grid', 2), (None, 1)])
    order = rng.choice(['sym-mask', 'mask-sym']) if sym and mask else 'any'   # applied from left to right
    symmetric = bool(sym) and (order == 'mask-sym' or rng.chance(.4))
    boxes = []
    for _ in range(1 if mask == 'grid' else rng.choice([1, 1, 2, 3])):
        if symmetric:
            m = rng.randrange(1, min(shape) // 2)
            boxes.append([m, m, shape[0] - m, shape[1] - m])
        else:
            x, y = rng.randrange(0, shape[0] - 2), rng.randrange(0, shape[1] - 2)
            boxes.append([x, y, rng.randrange(x + 1, shape[0] + 1), rng.randrange(y + 1, shape[1] + 1)])
    return {'sym': list(sym), 'avg': rng.chance(.5), 'mask': mask, 'boxes': boxes, 'order': order, 'symmetric': symmetric,
            'unit': rng.choice([1, 1, .1, .05, .25]),
            'cut': [[rng.choice([0, 0, .3, .6]) for _ in range(4)] for _ in boxes] if not symmetric and rng.chance(.5) else None, 'smooth': [rng.choice([1, 2, 5.]), rng.choice([1, 2]), rng.choice([.5, .5, .4])] if rng.chance(.3) else None,
            'single': rng.chance(.7)}


def gen(rng, tier):
    n = rng.choice([10, 11, 12, 13, 15])
    shape = [n, n] if rng.chance(.6) else [rng.choice([10, 11, 14]), rng.choice([9, 12, 13])]
    sims = []
    for i in range(rng.choice([1, 1, 2])):
        kind = rng.choice(['grid', 'grid', 'fdfd'])
        sims.append({'kind': kind, 'seed': rng.seed32(), 'tf': draw_tf(rng, shape), 'name': f's{i}'})
    if all(s['tf']['mask'] is None and not s['tf']['sym'] for s in sims):
        sims[0]['tf'] = {**sims[0]['tf'], 'mask': 'boxes'}
    ops = []
    for i in range(rng.choice([1, 2, 2, 3])):
        if rng.chance(.6 if i else .3):
            ops.append({'op': 'edit', 'what': rng.choice(['boxes', 'array', 'grid', 'eps'])})
        ops.append({'op': 'run', 'iters': rng.randrange(1, 5), 'step': rng.choice([.05, .3, 1., 3.]), 'seed': rng.seed32(),
                    'start': rng.choice(['random', 'random', 'initial', 'large']), 'eps': rng.choice([0, 1, 2]),
                    'fault': rng.choice([None, None, {'kind': 'line', 'line': rng.randrange(10, 3000)}, {'kind': 'pbar', 'at': rng.randrange(0, 4)}])})
    return {'config': {'shape': shape, 'sims': sims}, 'ops': ops}


class Constraint:
    """One simulation or grid, its transform made by simphox, and what the transform must do."""

    def __init__(self, c, shape, ctx):
        import jax.numpy as jnp
        from simphox.grid import YeeGrid, Port
        from simphox.fdfd import FDFD
        from simphox.utils import Box
        from simphox.transform import get_mask_fn, get_smooth_fn, get_symmetry_fn
        self.c, self.ctx, t = c, ctx, c['tf']
        self.t = t
        g = nprng(c['seed'])
        m = shape[1] // 2
        e = g.uniform(1, 2, shape)
        e[:, m - 2:shape[1] - m + 2] += 8
        if any('diag' in x for x in t['sym']):
            e[m - 2:shape[0] - m + 2] += 8
        if t['symmetric'] or not t['mask']:
            e = self.symmetrized(e)
        size = (shape[0] * D, shape[1] * D)
        if c['kind'] == 'fdfd':
            self.sim = FDFD(size, D, eps=e.copy(), wavelength=1.4, name=c['name'])
            y = round(shape[1] / 2 * D, 3)
            self.sim.port = {'a0': Port(.2, y, 180, .4, 0, 0), 'b0': Port(round((shape[0] - 2) * D, 3), y, 0, .4, 0, 0)}
        else:
            self.sim = YeeGrid(size, D, eps=e.copy(), name=c['name'])
        self.init = e
        self.given = e.copy()  # what the constraints are made from; edited later
        self.free = np.ones(shape, bool)     # may follow the parameters
        self.must = np.ones(shape, bool)     # have to follow the parameters
        u = t['unit']
        steps = []
        if t['mask'] == 'boxes':
            # the corners may be inside of their pixels
            at = [[x + f for x, f in zip(b, cut)] for b, cut in zip(t['boxes'], t.get('cut') or [[0] * 4] * len(t['boxes']))]
            self.boxes = [Box((u * (b[2] - b[0]), u * (b[3] - b[1])), spacing=u, min=(u * b[0], u * b[1])) for b in at]
            self.free[...] = False
            for b in t['boxes']:
                self.free[b[0]:b[2], b[1]:b[3]] = True
            self.must = self.free
            single = len(self.boxes) == 1 and t['single']
            mask = get_mask_fn(self.given, self.boxes[0] if single else self.boxes)
        elif t['mask'] == 'grid':
            b = t['boxes'][0]
            mask = self.sim.mask_fn(((b[2] - b[0]) * D, (b[3] - b[1]) * D, 0), ((b[0] + b[2]) / 2 * D, (b[1] + b[3]) / 2 * D, 0))
            self.free[...] = False
            self.must = self.free.copy()
            odd = [(b[2] - b[0]) % 2, (b[3] - b[1]) % 2]
            self.free[max(b[0] - odd[0], 0):b[2] + odd[0], max(b[1] - odd[1], 0):b[3] + odd[1]] = True
            self.must[b[0] + odd[0]:b[2] - odd[0], b[1] + odd[1]:b[3] - odd[1]] = True
        if t['smooth']:
            beta, radius, eta = t['smooth']
            sm = get_smooth_fn(beta, radius, eta)
        sym = get_symmetry_fn(**{k: True for k in t['sym']}, avg=t['avg']) if t['sym'] else None
        steps = []
        if t['order'] == 'mask-sym':
            if t['smooth']:
                steps.append(lambda x: 1 + 8 * sm(x / 10))
            steps += [mask, sym]
        else:
            if sym:
                steps.append(sym)
            if t['smooth']:
                steps.append(lambda x: 1 + 8 * sm(x / 10))
            if t['mask']:
                steps.append(mask)

        def tf(rho):
            for f in steps:
                rho = f(rho)
            return rho
        self.tf = tf
        self.jnp = jnp

    def symmetrized(self, x):
        ops = [FLIPS[k] for k in self.t['sym']]
        for _ in range(3):
            for f in ops:
                x = (x + f(x)) / 2
        return x

    def symmetric(self, x, msg, where=None):
        for k in self.t['sym']:
            self.ctx.close(x, FLIPS[k](x), 'asymmetric', tol=1e-12, msg=f'{msg}: {k} (averaged: {self.t["avg"]}, shape {x.shape})')

    def ref(self, rho):
        """Transformed parameters before the mask, or None for those the mask affects."""
        x = np.array(rho, float)
        t = self.t

        def smooth(x):
            beta, r, eta = t['smooth']
            x = x / 10
            p = np.pad(x, r)
            y, n = np.zeros_like(x), 0
            for i in range(-r, r + 1):
                for j in range(-r, r + 1):
                    if i * i + j * j < (r + 1) ** 2:
                        y, n = y + p[r + i:r + i + x.shape[0], r + j:r + j + x.shape[1]], n + 1
            y = y / n
            return 1 + 8 * (np.tanh(beta * eta) + np.tanh(beta * (y - eta))) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))

        def sym(x):
            if 'ortho_y' in t['sym']:
                n = x.shape[1] // 2
                x = (x + x[:, ::-1]) / 2 if t['avg'] else np.concatenate([x[:, :x.shape[1] - n], x[:, :n][:, ::-1]], axis=1)
            if 'ortho_x' in t['sym']:
                n = x.shape[0] // 2
                x = (x + x[::-1]) / 2 if t['avg'] else np.concatenate([x[:x.shape[0] - n], x[:n][::-1]])
            for k in ('diag_p', 'diag_n'):
                if k in t['sym']:
                    x = (x + FLIPS[k](x)) / 2
            return x
        if t['order'] == 'mask-sym':
            if t['smooth']:
                x = smooth(x)
            if t['mask'] == 'grid' and not np.array_equal(self.free, self.must):
                return None
            return sym(np.where(self.free, x, self.init))
        x = sym(x)
        return smooth(x) if t['smooth'] else x

    def check(self, eps, msg, rho=None):
        ctx = self.ctx
        eps = np.asarray(eps)
        ctx.check(eps.shape == self.init.shape and eps.dtype.kind == 'f', 'wrong-shape', lambda: f'{msg}: {eps.shape} {eps.dtype}')
        if self.t['mask']:
            ctx.close(eps[~self.free], self.init[~self.free], 'changed-outside', tol=1e-12, msg=f'{msg}: outside of {self.t["mask"]} {self.t["boxes"]}')
        plain = self.t['mask'] == 'grid' and not np.array_equal(self.free, self.must)
        if self.t['sym']:
            if (not self.t['mask'] or self.t['order'] == 'mask-sym'):
                self.symmetric(eps, msg)
            elif self.t['symmetric'] and not plain:
                self.symmetric(np.where(self.free, eps, 0), f'{msg}, in the boxes')
        if rho is not None:
            want = self.ref(rho)
            if want is not None:
                ctx.close(eps[self.must], want[self.must], 'not-designed', tol=1e-9, msg=f'{msg}: permittivity of the design')


def run(plan, ctx):
    import jax.numpy as jnp
    from simphox.opt import OptProblem, opt_run
    from ..seams import S, Interrupter
    S.eigs_seed = 3
    cfg = plan['config']
    shape = cfg['shape']
    cons = [Constraint(c, shape, ctx) for c in cfg['sims']]
    problems = []
    for i, c in enumerate(cons):
        w = jnp.array(nprng(c.c['seed'] + 1).normal(size=shape))
        if c.c['kind'] == 'fdfd':
            try:
                ok = all(abs(c.sim.port_modes()[n].io.modes[0][0]) > 1e-6 for n in c.sim.port)
            except Exception:  # noqa: no guided mode
                ok = False
            if not ok:
                ctx.log('no guided mode')
                c.c = {**c.c, 'kind': 'grid'}
        if c.c['kind'] == 'fdfd':
            problems.append(OptProblem(c.tf, lambda sf, w=w: (jnp.sum(jnp.abs(sf[0]) ** 2) + 1e-3 * jnp.sum(jnp.abs(sf[1][1][2, ..., 0]) * w), sf), c.sim, 'a0'))
        else:
            problems.append(OptProblem(c.tf, lambda eps, w=w: (jnp.sum(eps * w) + .01 * jnp.sum(eps ** 2), eps), c.sim, None))
    faults = []
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        if op['op'] == 'edit':
            for c in cons:
                if op['what'] == 'boxes' and c.t['mask'] == 'boxes':
                    for b in c.boxes:
                        b.translate(b.spacing, 2 * b.spacing)
                elif op['what'] == 'array':
                    c.given[...] = 99.
                elif op['what'] == 'grid':
                    c.sim.eps = np.asarray(c.sim.eps) + 3.
                elif op['what'] == 'eps':
                    c.sim.eps[...] = 42.
            faults.append(op['what'])
            ctx.log('edit', op['what'])
            continue
        g = nprng(op['seed'])
        init = {'random': lambda: g.uniform(1, 12, shape), 'initial': lambda: cons[0].init.copy(), 'large': lambda: g.uniform(-50, 50, shape)}[op['start']]()
        if op['start'] == 'large' and any(c.c['kind'] == 'fdfd' for c in cons):
            init = np.abs(init) / 3 + 1   # an FDFD needs a permittivity
        keep = init.copy()
        before = [np.array(c.sim.eps) for c in cons]
        f = op['fault'] or {'kind': None}
        it = Interrupter(f['line'] if f['kind'] == 'line' else None, KeyboardInterrupt)
        msg = f'run {i} after {faults}'
        seen = []

        def look(j):
            if f['kind'] == 'pbar' and j >= f['at']:
                raise KeyboardInterrupt('injected')
            seen.append([np.array(c.sim.eps) for c in cons])
        rec = None
        try:
            with it:
                rec = opt_run(problems, init, op['iters'], step_size=op['step'], eps_interval=op['eps'],
                              pbar=lambda its: iter(Bar(its, [], look)))
        except KeyboardInterrupt:
            ctx.fault('interrupt')
            faults.append('interrupt')
        except Exception:  # noqa: an interruption inside of a compiled function arrives wrapped
            if not it.fired:
                raise
            ctx.fault('interrupt')
            faults.append('interrupt')
        ctx.same(init, keep, 'initial-parameters-changed', 'init_params')
        ctx.sim_time += op['iters']
        for j, eps in enumerate(seen):
            for c, e, b in zip(cons, eps, before):
                if not np.array_equal(e, b):
                    c.check(e, f'{msg}, iteration {j}')
        for c, b in zip(cons, before):
            e = np.array(c.sim.eps)
            if rec is not None or not np.array_equal(e, b):
                c.check(e, f'{msg}, at the end', None if rec is None else np.asarray(rec.params))
        if rec is not None:
            fd = [c for c in cons if c.c['kind'] == 'fdfd']
            if op['eps'] and fd:
                for a, c in enumerate(fd):
                    for b, e in enumerate(np.asarray(rec.eps.values[a])):
                        c.check(e, f'{msg}, record {b}', init if b == 0 else None)
            masks = [c for c in cons if c.t['mask'] and not c.t['sym'] and not c.t['smooth']]
            if len(masks) == len(cons):   # nothing outside of all boxes can have been touched
                out = ~np.any([c.free for c in cons], axis=0)
                ctx.same(np.asarray(rec.params)[out], init[out], 'changed-outside', f'{msg}: parameters outside of all boxes')
            ctx.log('run', sig(rec.params, 3))
        else:
            ctx.log('run', 'interrupted')
        ctx.state([(c.t['sym'], c.t['avg'], c.t['mask'], c.t['order'], bool(c.t['smooth'])) for c in cons], [n % 2 for n in shape], faults[-2:])
