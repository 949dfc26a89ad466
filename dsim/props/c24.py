"""C24: layouts are where the geometry puts them."""
import numpy as np

from ..core import nprng, sig

ID = 'C24'
TITLE = 'Boxes and pixel regions are exactly where the geometry puts them'
LEVEL = 'exploration'
RUNS = {'quick': 800, 'thorough': 15000}
TIME_UNIT = 'operations'
NOTE = 'Seeded search over histories of moves, alignments, paints, masks, rejected and interrupted operations; not exhaustive.'
RULE = ('2-5 boxes and 1-2 grids (1D, 2D, 3D, equal or different spacings, one pixel wide ones) with 8-40 operations: translate, align, halign, '
        'valign with boxes, points and numbers, copies, masks, set_eps by numbers or by boxes, fill, add, mask functions and views, '
        'beyond the edges too, mixed with rejected operations and interruptions at drawn lines.')
STATE = 'hash of (kind of grid, consecutive operations)'
REAL = ['simphox.utils', 'simphox.grid', 'simphox.fdfd (as a grid)']
STUB = ['dphox patterns (mask, bounds and ports given as arrays)']
ASSUMES = ['positions that are half a pixel off (where rounding may go either way) are not used for regions given by center and size']
PROPERTY = {
    'statement': 'Boxes are exactly where their translations and alignments (edge to edge, center to center) put them; the pixels of a box are those '
                 'from the one containing its lower to the one containing its upper corner (exclusive), those of a center and a size are round(size) '
                 'pixels starting round(center) - round(size) // 2, and regions are cut at the edges of the grid. Paints, fills, added '
                 'patterns, masks and views concern exactly these pixels, later paints win, and grids keep their shape. This '
                 'holds after any history, rejected and interrupted operations included; copies of boxes are independent, masks change '
                 'no input, and chained calls give the object itself.',
    'quantifier': {'over': ['histories', 'inputs', 'fault_sequences'], 'text': 'all histories of layout operations with rejected and interrupted ones'},
    'why_tests_cant': 'The tests rasterize a few layouts once, on multiples of the pixel size and inside the grid. Rounding errors of moved boxes, '
                      'different spacings, edges of the grid and single-pixel axes need many positions and histories.',
    'anchors': {
        'files': ['simphox/utils.py', 'simphox/grid.py'],
        'state': [{'name': 'position of a box', 'meaning': 'lower corner, moved in place', 'where': 'simphox/utils.py Box'},
                  {'name': 'permittivity of a grid', 'meaning': 'painted in place', 'where': 'simphox/grid.py Grid'}],
        'mechanism': [{'name': 'rasterization', 'where': 'simphox/utils.py Box.slice, simphox/grid.py Grid.slice'},
                      {'name': 'alignment', 'where': 'simphox/utils.py Box.align, halign, valign'}],
        'observe_at': ['Box.min, max, center, slice, shape, mask', 'Grid.eps, mask, slice, mask_fn, view_fn, port'],
        'hook_needed': None},
}
Q = 8   # positions are integers: multiples of an eighth of the spacing


def setup():
    import simphox.fdfd, simphox.grid, simphox.utils  # noqa


def gen(rng, tier):
    d = rng.choice([.1, .05, .25, 1., .3, .07])
    grids = []
    for _ in range(rng.randrange(1, 3)):
        nd = rng.weighted([(1, 1), (2, 4), (3, 3)])
        shape = [rng.randrange(4, 13) for _ in range(nd)]
        if nd > 1 and rng.chance(.25):
            shape[rng.randrange(1, nd)] = 1
        sp = d if nd == 1 or rng.chance(.5) else [d * rng.choice([1, .8, 1.25]) for _ in shape]
        grids.append({'shape': shape, 'spacing': sp, 'kind': rng.choice(['grid', 'grid', 'fdfd'])})

    def pos(lo=-2, hi=14):
        return rng.randrange(lo * Q, hi * Q + 1) if rng.chance(.6) else Q * rng.randrange(lo, hi + 1)

    def size():
        return 2 * rng.randrange(0, 4 * Q) if rng.chance(.6) else Q * rng.randrange(0, 9)
    boxes = [{'size': [2 * (s // 2) for s in (size(), size())], 'min': [pos(), pos()]} for _ in range(rng.randrange(2, 5))]
    ops = []
    for _ in range(rng.randrange(8, 41)):
        k = rng.weighted([('translate', 3), ('align', 2), ('halign', 3), ('valign', 3), ('copy', 1), ('bmask', 3), ('resize', .5), ('set', 4), ('paint', 3),
                          ('fill', 1), ('add', 1), ('mask', 2), ('maskfn', 1), ('view', 1), ('reject', 1)])
        ops.append({'op': k, 'b': rng.randrange(6), 'c': rng.randrange(6), 'g': rng.randrange(2), 'to': rng.choice(['box', 'box', 'number']),
                    'low': rng.chance(.5), 'opposite': rng.chance(.5), 'p': [pos(), pos(), pos()], 's': [size(), size(), size()],
                    'seed': rng.seed32(), 'val': rng.randrange(2, 1000) / 8, 'line': rng.randrange(1, 14) if rng.chance(.12) else None, 'jax': rng.chance(.2)})
    return {'config': {'d': d, 'boxes': boxes, 'grids': grids}, 'ops': ops}


def num(x):
    """A length as users write it: decimal, and an integer where it is one."""
    x = round(x, 12)
    return int(x) if x == int(x) else x


class Pattern:
    """What Grid.add needs of a dphox pattern."""

    def __init__(self, mask, size, port):
        self._mask, self.bounds, self.port = mask, (0, 0, *size[:2]), port
        self.size = tuple(size[:2])

    def mask(self, shape, spacing):
        return self._mask.copy()


class PPort:
    def __init__(self, x, y, a, w):
        self.x, self.y, self.a, self.w, self.xya = x, y, a, w, (x, y, a)


def pixels(lo, hi, n):
    """Slice of an axis with n pixels from lo to hi, cut at its edges."""
    return slice(min(max(lo, 0), n), max(min(hi, n), 0) if hi > lo else min(max(lo, 0), n))


def rounded(q):
    """Nearest pixel of a position; None if it is half a pixel off."""
    return None if q % Q == Q // 2 else (q + Q // 2) // Q


def region(center, size, shape, ndim):
    """The pixels (slices) of a centre and a size; None if they are not well defined. Sizes of 0 give one pixel."""
    out = []
    for c, s, n, ax in zip(center, size, shape, range(3)):
        if ax >= ndim:
            out.append(slice(0, 1))
            continue
        c, s = rounded(c), rounded(s)
        if c is None or s is None:
            return None
        if s == 0:
            if not 0 <= c < n:
                return None
            out.append(slice(c, c + 1))
        else:
            out.append(pixels(c - s // 2, c - s // 2 + s, n))
    return tuple(out)


class GridModel:
    def __init__(self, c, d):
        from simphox.fdfd import FDFD
        from simphox.grid import Grid
        self.nd = len(c['shape'])
        self.sp = np.ones(self.nd) * c['spacing']
        sp = c['spacing'] if not isinstance(c['spacing'], list) else tuple(c['spacing'])
        size = tuple(float(x) for x in self.sp * c['shape'])
        self.size = size
        self.grid = Grid(size, sp, eps=1.5) if c['kind'] == 'grid' else FDFD(size, sp, eps=1.5)
        self.shape = tuple(c['shape'])
        self.shape3 = self.shape + (1,) * (3 - self.nd)
        self.eps = np.ones(self.shape3) * 1.5
        self.sp3 = tuple(float(x) for x in self.sp) + (d,) * (3 - self.nd)

    def length(self, q):
        return tuple(round(x * s / Q, 12) for x, s in zip(q, self.sp3))


def run(plan, ctx):
    from simphox.utils import Box, Material
    from ..seams import Interrupter
    import jax.numpy as jnp
    c = plan['config']
    d = c['d']
    boxes = [Box(tuple(round(x * d / Q, 12) for x in b['size']), Material('m', 2.), d, tuple(round(x * d / Q, 12) for x in b['min'])) for b in c['boxes']]
    models = [{'size': list(b['size']), 'min': list(b['min'])} for b in c['boxes']]
    grids = [GridModel(g, d) for g in c['grids']]
    hist = []

    def tried(op, fn):
        """fn(); True if it was interrupted."""
        if op['line'] is None:
            fn()
            return False
        try:
            with Interrupter(op['line'], KeyboardInterrupt):
                fn()
        except KeyboardInterrupt:
            ctx.fault('interrupt')
            return True
        return False

    def look_box(i, msg):
        b, m = boxes[i], models[i]
        lo, size = np.array(m['min']) * d / Q, np.array(m['size']) * d / Q
        ctx.close(np.array([b.min, b.max, b.center, b.size]), np.array([lo, lo + size, lo + size / 2, size]), 'wrong-place', tol=1e-9, scale=d, msg=f'{msg}: box {i}')
        a, e = m['min'], [x + y for x, y in zip(m['min'], m['size'])]
        want = tuple(slice(max(x // Q, 0), max(y // Q, 0)) for x, y in zip(a, e))
        got = b.slice
        ctx.check(len(got) == 2 and all(x.start == y.start and x.stop == y.stop and x.step in (None, 1) for x, y in zip(got, want)), 'wrong-pixels',
                  lambda: f'{msg}: box {i} at {a} to {e} eighths of a pixel: {got}, expected {want}')
        if min(a) >= 0:
            ctx.check(tuple(b.shape) == tuple(y // Q - x // Q for x, y in zip(a, e)) and tuple(b.min_i) == tuple(x // Q for x in a) and
                      tuple(b.max_i) == tuple(x // Q for x in e), 'wrong-pixels', lambda: f'{msg}: box {i} at {a} to {e}: {b.min_i} {b.max_i} {b.shape}')

    def moved(i, new, op, fn, msg):
        b, m = boxes[i], models[i]
        old = list(m['min'])
        out = []
        if tried(op, lambda: out.append(fn())):
            pos = np.array(b.min) * Q / d
            for ax in range(2):
                near = [p for p in (old[ax], new[ax]) if abs(p - pos[ax]) < 1e-6]
                ctx.check(near, 'wrong-place', lambda: f'{msg} (interrupted): box {i} at {pos}, was {old}, to be {new}')
                new[ax] = near[0]
        else:
            ctx.check(out[0] is b, 'not-chained', f'{msg}: not the box itself')
        m['min'] = new

    def painted(g, reg, val, op, fn, msg):
        """fn has to set the region (an index) of the permittivity to val."""
        want = g.eps.copy()
        want[reg] = val
        out = []
        if tried(op, lambda: out.append(fn())):
            got = np.asarray(g.grid.eps)
            ctx.check(got.shape == g.shape, 'wrong-shape', lambda: f'{msg}: {got.shape}')
            got = got.reshape(g.shape3)
            ctx.check(np.all((got == want) | (got == g.eps)), 'wrong-eps', f'{msg} (interrupted): other values')
            want = got.copy()
        elif fn is not None:
            ctx.check(out[0] is g.grid, 'not-chained', f'{msg}: not the grid itself')
        g.eps = want

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        ctx.sim_time += 1
        k = op['op']
        bi, ci = op['b'] % len(boxes), op['c'] % len(boxes)
        b, m, o = boxes[bi], models[bi], models[ci]
        g = grids[op['g'] % len(grids)]
        msg = f'op {i} {k} after {hist[-6:]}'
        rng = nprng(op['seed'])
        if k == 'translate':
            dx, dy = op['p'][0] // 2, op['p'][1] // 2
            form = op['seed'] % 3
            moved(bi, [m['min'][0] + dx * (form != 2), m['min'][1] + dy * (form != 1)], op,
                  [lambda: b.translate(num(dx * d / Q), num(dy * d / Q)), lambda: b.translate(num(dx * d / Q)), lambda: b.translate(dy=num(dy * d / Q))][form], msg)
        elif k == 'align':
            if op['to'] == 'box':
                cen = [x + s // 2 for x, s in zip(o['min'], o['size'])]
                moved(bi, [x - s // 2 for x, s in zip(cen, m['size'])], op, lambda: b.align(boxes[ci]), msg)
            else:
                moved(bi, [x - s // 2 for x, s in zip(op['p'], m['size'])], op, lambda: b.align((num(op['p'][0] * d / Q), num(op['p'][1] * d / Q))), msg)
        elif k in ('halign', 'valign'):
            ax = int(k == 'valign')
            low, opp = op['low'], op['opposite']
            edge = o['min'][ax] + (o['size'][ax] if low == opp else 0)
            if op['to'] == 'number':
                edge = op['p'][ax]
            target = boxes[ci] if op['to'] == 'box' else num(edge * d / Q)
            new = list(m['min'])
            new[ax] = edge - (0 if low else m['size'][ax])
            fn = b.valign if ax else b.halign
            if low and opp and op['seed'] % 2:
                moved(bi, new, op, lambda: fn(target), msg)
            elif ax:
                moved(bi, new, op, lambda: b.valign(target, bottom=low, opposite=opp), msg)
            else:
                moved(bi, new, op, lambda: b.halign(target, left=low, opposite=opp), msg)
        elif k == 'copy':
            if len(boxes) < 6:
                boxes.append(b.copy)
                models.append({'size': list(m['size']), 'min': list(m['min'])})
        elif k == 'resize':
            s = [2 * (x // 2) for x in op['s'][:2]]
            b.size = tuple(x * d / Q for x in s)
            m['size'] = s
        elif k == 'bmask':
            a = rng.uniform(1, 9, tuple(int(x) for x in rng.randint(3, 13, 2)))
            if op['seed'] % 3 == 0:
                a = a.astype(int)
            keep = a.copy()
            got = b.mask(jnp.array(a) if op['jax'] else a)
            want = np.zeros(a.shape)
            want[tuple(pixels(x // Q, (x + s) // Q, n) for x, s, n in zip(m['min'], m['size'], a.shape))] = 1
            ctx.same(np.asarray(got, float), want, 'wrong-pixels', f'{msg}: mask of a box at {m}')
            ctx.same(a, keep, 'input-changed', msg)
        elif k in ('set', 'mask', 'maskfn'):
            cen, s = [x % (n * Q + 1) if op['seed'] % 4 else x for x, n in zip(op['p'], g.shape3)], list(op['s'])
            reg = region(cen, s, g.shape3, g.nd)
            if reg is not None:
                C, S = g.length(cen), g.length(s)
                if k == 'set':
                    painted(g, reg, op['val'], op, lambda: g.grid.set_eps(C, S, op['val']), f'{msg} {cen} {s}')
                else:
                    want = np.zeros(g.shape3)
                    want[reg] = 1
                    if k == 'mask':
                        got = g.grid.mask(C, S)
                        ctx.same(got, want.reshape(g.shape), 'wrong-pixels', f'{msg}: mask {cen} {s}')
                        sl = np.zeros(g.shape3)
                        sl[g.grid.slice(C, S, squeezed=False)] = 1
                        ctx.same(sl, want, 'wrong-pixels', f'{msg}: slice {cen} {s}')
                    else:
                        middle = region([n * Q // 2 for n in g.shape3], s, g.shape3, g.nd) if op['to'] == 'number' else None
                        if middle is not None:
                            want = np.zeros(g.shape3)
                            want[middle] = 1
                            fn = g.grid.mask_fn(S)
                        else:
                            fn = g.grid.mask_fn(size=S, center=C)
                        rho = rng.uniform(1, 5, g.shape)
                        then = g.eps.copy()
                        g.grid.eps[...] = 7.   # the function keeps what was there
                        g.eps[...] = 7.
                        want = want.reshape(g.shape)
                        ctx.close(np.asarray(fn(rho)), np.where(want == 1, rho, then.reshape(g.shape)), 'wrong-pixels', tol=1e-12, scale=100, msg=f'{msg}: mask function')
        elif k == 'paint':
            cen = [x + s // 2 for x, s in zip(m['min'], m['size'])] + [op['p'][2]]
            s = [*m['size'], op['s'][2]]
            if g.nd > 1 and np.all(np.abs(g.sp - d) < 1e-12):
                reg = region(cen, s, g.shape3, g.nd)
                if reg is not None:
                    z = (cen[2] * d / Q, s[2] * d / Q) if g.nd == 3 else (0, 0)
                    painted(g, reg, op['val'], op, lambda: g.grid.set_eps((*b.center, z[0]), (*b.size, z[1]), op['val']), f'{msg} {cen} {s}')
        elif k == 'fill':
            h = op['p'][0] % (g.shape[-1] * Q + Q)
            reg = (slice(None),) * (g.nd - 1) + (slice(0, h // Q) if h > 0 else slice(None),)
            painted(g, reg, op['val'], op, lambda: g.grid.fill(num(h * g.sp[-1] / Q), op['val']), f'{msg} {h}')
        elif k == 'add':
            if g.nd > 1:
                pm = (rng.uniform(0, 1, g.shape[:2]) > .5).astype(int)
                port = {'a0': PPort(.3, .4, 180, .2), 'b0': PPort(.5, .4, 0, .3)}
                z0 = op['p'][2] % (g.shape3[2] * Q)
                z1 = z0 + op['s'][2]
                args, zh = (), (0, 0)
                if g.nd == 3 or op['seed'] % 2:
                    args = (round(z0 * g.sp3[2] / Q, 12), round((z1 - z0) * g.sp3[2] / Q, 12))
                    zh = (args[0] + args[1] / 2, args[1])
                r = g.grid.add(Pattern(pm, g.size, port), op['val'], *args)
                ctx.check(r is g.grid, 'not-chained', 'add does not give the grid')
                if g.nd == 2:
                    g.eps[pm == 1] = op['val']
                else:
                    g.eps[pm == 1, z0 // Q:z1 // Q] = op['val']
                ctx.check(set(g.grid.port) == set(port), 'wrong-ports', lambda: f'{msg}: ports {list(g.grid.port)}')
                for name, p in port.items():
                    q = g.grid.port[name]
                    ctx.close(np.array([q.x, q.y, q.a, q.w, q.z, q.h], float), np.array([p.x, p.y, p.a, p.w, *zh]), 'wrong-ports', tol=1e-9, scale=1, msg=f'{msg} {name}')
        elif k == 'view':
            ax = op['seed'] % g.nd
            cen = [x % (n * Q) for x, n in zip(op['p'], g.shape3)]
            s = [max(x, Q) for x in op['s']]
            s[ax] = 0
            s[g.nd:] = [0] * (3 - g.nd)
            reg = region(cen, s, g.shape3, g.nd)
            if reg is not None:
                axes = [(1, 2, 0), (0, 2, 1), (0, 1, 2)][ax]
                f = rng.normal(size=(3, *g.shape3)) + 1j * rng.normal(size=(3, *g.shape3))
                got = g.grid.view_fn(g.length(cen), g.length(s), use_jax=op['jax'])(f)
                want = np.stack([f[a][reg] for a in axes]).transpose((0, *(1 + a for a in axes)))
                ctx.same(np.asarray(got), want, 'wrong-view', f'{msg}: view {cen} {s}')
        elif k == 'reject':
            how = op['seed'] % 3
            C, S = g.length(op['p']), g.length(op['s'])
            ctx.expect([lambda: g.grid.set_eps(C[:2], S, 9.), lambda: g.grid.mask(C, S[:2]), lambda: g.grid.set_eps(C, S[:1], 9.)][how], ValueError, 'accepted', f'{msg} {how}')
            ctx.fault('rejected')
        for j in range(len(boxes)):
            look_box(j, msg)
        for j, h in enumerate(grids):
            e = np.asarray(h.grid.eps)
            ctx.check(e.shape == h.shape, 'wrong-shape', lambda: f'{msg}: grid {j} has a permittivity of shape {e.shape}, not {h.shape}')
            ctx.same(e.reshape(h.shape3), h.eps, 'wrong-eps', f'{msg}: grid {j}')
        hist.append(k)
        ctx.state(g.nd, hist[-2:], op['line'] is not None)
        ctx.log(k, sig(g.eps), models[bi]['min'])
