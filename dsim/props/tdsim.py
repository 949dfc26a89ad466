"""Simulated time-domain worlds shared by the FDTD properties: grids, source schedules, permittivity schedules."""
import numpy as np

from ..core import nprng

PHASES = 1.7


def draw_world(rng, jax=None, ndim=None, pml=None, steps=(8, 26)):
    nd = ndim or rng.weighted([(2, 3), (3, 1)])
    use_pml = rng.chance(.6) if pml is None else pml
    shape = [rng.randrange(10, 15) if use_pml else rng.randrange(5, 12) for _ in range(2)] if nd == 2 else \
        [rng.randrange(10, 13) if use_pml else rng.randrange(4, 8) for _ in range(3)]
    if rng.chance(.06):   # a few large ones
        shape = [rng.randrange(24, 48) for _ in range(2)] if nd == 2 else [rng.randrange(13, 18) for _ in range(3)]
    spacing = rng.choice([.1, .1, .05, [round(rng.uniform(.05, .15), 3) for _ in range(nd)]])
    sp = spacing if isinstance(spacing, list) else [spacing] * nd
    t = [rng.randrange(4, max(5, n // 2)) for n in shape]
    if rng.chance(.4) and not isinstance(spacing, list):
        t = [min(t)] * nd
    p = None
    if use_pml:
        p = [round((ti + .2) * d, 6) for ti, d in zip(t, sp)]
        if len(set(p)) == 1 and rng.chance(.7):
            p = p[0]
    return {'shape': shape, 'spacing': spacing, 'pml': p,
            'pml_params': rng.choice([None, None, [2, -12, 1], [3, -16, 2.0]]),
            'jax': rng.chance(.33) if jax is None else jax, 'seed': rng.seed32(),
            'eps': rng.choice(['rough', 'rough', 'blocks', 'one']), 'steps': rng.randrange(*steps),
            'nsrc': rng.randrange(1, 4), 'on': rng.choice([3, 6, 100]), 'edits': rng.chance(.4)}


def make_eps(g, kind, shape):
    if kind == 'one':
        return np.ones(shape)
    if kind == 'blocks':
        e = np.full(shape, 2.)
        e[tuple(slice(n // 3, n // 3 + max(2, n // 3)) for n in shape)] = 9.
        return e
    return g.uniform(1, 9, shape)


class World:
    """What a time-domain simulation is subjected to, as a function of the step (nothing here is simulated code)."""

    def __init__(self, w):
        g = nprng(w['seed'])
        self.w = w
        self.shape = tuple(w['shape'])
        self.nd = len(self.shape)
        self.shape3 = self.shape + (1,) * (3 - self.nd)
        self.spacing = np.ones(self.nd) * np.array(w['spacing'])
        self.size = tuple(n * d for n, d in zip(self.shape, self.spacing))
        self.pml_params = tuple(w['pml_params'] or (3, -25, 1))
        self.eps_list = [make_eps(g, w['eps'], self.shape)]
        self.edit_steps = [0]
        if w['edits']:
            for s in sorted(set(g.randint(1, w['steps'], 2))):
                self.edit_steps.append(int(s))
                e = self.eps_list[-1].copy()
                e[tuple(slice(g.randint(n - 2), None) for n in self.shape)] = g.uniform(1, 12)
                self.eps_list.append(e)
        self.sources = []
        for _ in range(w['nsrc']):
            comp = g.randint(3)
            sl, shp = [], []
            for n in self.shape3:
                if n == 1 or g.uniform() < .4:
                    sl.append(int(g.randint(n)))
                else:
                    lo = int(g.randint(n - 1))
                    hi = int(g.randint(lo + 2, n + 1))  # at least two cells: the sources are squeezed
                    sl.append(slice(lo, hi))
                    shp.append(hi - lo)
            full = g.uniform() < .4
            region = ((slice(None) if full else int(comp)),) + tuple(sl)
            shp = ([3] if full else []) + shp
            kind = ['e', 'h', 'eh'][g.randint(3)]
            je = g.standard_normal(shp) + 1j * g.standard_normal(shp) if 'e' in kind else None
            jh = g.standard_normal(shp) + 1j * g.standard_normal(shp) if 'h' in kind else None
            self.sources.append((je, jh, region, g.uniform(.2, 2)))

    def eps(self, step):
        return self.eps_list[max(i for i, s in enumerate(self.edit_steps) if s <= step)].copy()

    def source(self, step, scale=1.):
        if step >= self.w['on']:
            return []
        out = []
        for je, jh, region, om in self.sources:
            ph = np.exp(1j * om * step) * scale
            out.append((None if je is None else je * ph, None if jh is None else jh * ph, region))
        return out

    def make(self, jax=None, eps=None):
        from simphox.fdtd import FDTD
        kw = {} if self.w['pml_params'] is None else {'pml_params': self.pml_params}
        sp = self.spacing.copy() if isinstance(self.w['spacing'], list) else self.w['spacing']
        pml = self.w['pml']
        return FDTD(self.size, sp, eps=self.eps(0) if eps is None else eps,
                    pml=tuple(pml) if isinstance(pml, list) else pml, use_jax=self.w['jax'] if jax is None else jax, **kw)


def host(state):
    """A deep copy of a state as plain numpy arrays."""
    e, h, pe, ph = state
    return [np.array(e), np.array(h), None if pe is None else [np.array(x) for x in pe],
            None if ph is None else [np.array(x) for x in ph]]


def device(sim, st, jax):
    """A state for the simulation, from plain arrays."""
    import jax.numpy as jnp
    f = jnp.array if jax else np.array
    e, h, pe, ph = st
    return (f(e), f(h), None if pe is None else [f(x) for x in pe], None if ph is None else [f(x) for x in ph])


def leaves(st):
    e, h, pe, ph = st
    return [('e', e), ('h', h)] + [(f'psi_e[{i}]', x) for i, x in enumerate(pe or [])] + \
        [(f'psi_h[{i}]', x) for i, x in enumerate(ph or [])]
