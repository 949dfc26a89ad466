"""C08: amplitudes are reported under the port and mode they belong to."""
import sys
import types

import numpy as np

from ..core import nprng, sig
from ..ref import RefGrid, RefPorts
from .c05 import PPort, Pattern

ID = 'C08'
TITLE = 'S-parameters are reported under the port and mode they belong to'
LEVEL = 'exploration'
RUNS = {'quick': 220, 'thorough': 6000}
NOTE = ('Seeded search over port names, hash orders, port and request orders, source and measurement formats; not '
        'exhaustive.')
RULE = ('one device (waveguides with scatterers, 2-4 ports, random port angles, TM or TE) in which the names, the '
        'string hashes, the port order, the measured ports and modes and their formats are drawn; 2-7 requests.')
STATE = 'hash of (request, port order, angles, hash order)'
REAL = ['simphox.sim', 'simphox.fdfd', 'simphox.primitives (JAX)', 'simphox.parse', 'simphox.mode', 'simphox.mkl',
        'simphox.circuit.component', 'Intel MKL Pardiso', 'scipy eigs', 'xarray']
STUB = ['ARPACK start vector (seeded)', 'string hashes of the port names (str subclass with seeded hashes)',
        'dphox patterns (a stand-in with bounds, mask and ports)']
ASSUMES = ['ports are at least two cells apart from the scatterers']
PROPERTY = {
    'statement': 'Whatever the ports are called and in whichever order ports, sources and measurements are given (also '
                 'as names, tuples, lists or dicts, and under every hash order of the names), each amplitude is reported '
                 'for the port and mode it belongs to: S-parameters are normalized to the source that was asked for, '
                 'permuting the request permutes the result, weighted sources superpose, fidelities pair the desired '
                 'with the measured S-parameters of the same port, and labelled results (decorate, component models) '
                 'carry the right labels.',
    'quantifier': {'over': ['inputs', 'histories', 'schedules'],
                   'text': 'all port maps, orders, formats and hash orders, and all histories of requests to one simulation'},
    'why_tests_cant': 'The tests use one device with ports in the natural order, and the interpreter picks one hash '
                      'order per process.',
    'anchors': {
        'files': ['simphox/sim.py', 'simphox/fdfd.py', 'simphox/parse.py', 'simphox/circuit/component.py'],
        'state': [{'name': 'port map', 'meaning': 'ordered map of names to ports', 'where': 'simphox/grid.py Grid.port'}],
        'mechanism': [{'name': 'measurement order', 'where': 'simphox/sim.py get_measure_fn, port_modes'},
                      {'name': 'normalization', 'where': 'simphox/fdfd.py sparams, simphox/sim.py get_sim_sparams_fn'}],
        'observe_at': ['sparams, get_sim_sparams_fn, get_sim_fn, port_source, fidelity, decorate, Component.from_fdfd'],
        'hook_needed': None},
}
D, SHAPE, SIZE = .1, (24, 20), (2.4, 2.0)


class Name(str):
    """A string whose hash (and so its place in sets) the simulator decides."""

    def __new__(cls, s, h):
        o = super().__new__(cls, s)
        o.h = h
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return str.__eq__(self, other)

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (Name, (str(self), self.h))


def pre_install():
    for n in ('dphox', 'dphox.pattern', 'dphox.device'):
        sys.modules.setdefault(n, types.ModuleType(n))
    sys.modules['dphox.pattern'].Pattern = Pattern
    sys.modules['dphox.device'].Device = Pattern


def setup():
    import simphox.circuit.component, simphox.fdfd, simphox.mkl, simphox.fdtd  # noqa


PLACES = {'w': [.4, 1.0, 180, .4], 'e': [2.0, 1.0, 0, .4], 's': [1.2, .4, -90, .4], 'n': [1.2, 1.6, 90, .4]}


def gen(rng, tier):
    places = rng.subset(['w', 'e', 's', 'n'], .6)
    if len(places) < 2:
        places = ['w', 'e']
    rng.shuffle(places)
    pool = ['a0', 'b0', 'a1', 'in', 'out', 'x', '2', 'port10', 'port9', 'Z', 'in 0']
    rng.shuffle(pool)
    ports = []
    for i, p in enumerate(places):
        q = list(PLACES[p])
        q[2] = rng.choice([q[2], q[2] + 360, q[2]])
        ports.append([pool[i], q, rng.choice([i, -i, rng.randrange(1 << 30), 7])])
    ops = []
    names = [p[0] for p in ports]
    for _ in range(rng.randrange(2, 7)):
        meas = [[n, k] for n in names for k in (0, 1) if k == 0 or rng.chance(.3)]
        rng.shuffle(meas)
        meas = meas[:rng.randrange(1, len(meas) + 1)]
        src = rng.choice(meas)
        ops.append({'op': rng.weighted([('sparams', 5), ('sim-sparams', 2.5), ('superpose', 3), ('measure', 3), ('fidelity', 3),
                                        ('decorate', 1.5), ('sim-fn', 1), ('component', .6), ('reorder', 1.5)]),
                    'seed': rng.seed32(), 'meas': meas, 'src': src, 'form': rng.choice(['tuples', 'tuples', 'default', 'dict', 'names']),
                    'order': rng.sample(range(len(names)), len(names)), 'tm': rng.chance(.75),
                    'iw': rng.choice([0, 0, .3, 1])})
    return {'config': {'ports': ports, 'seed': rng.seed32(), 'wl': rng.choice([1.3, 1.45, 1.55]),
                       'spacing': rng.choice([[.1, .1], [.1, .1], [.1, .12], [.12, .1]])}, 'ops': ops}


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.grid import Port
    from ..seams import S
    cfg = plan['config']
    D = tuple(cfg['spacing'])
    SIZE = tuple(n * d for n, d in zip(SHAPE, D))
    D = np.array(D) if D[0] != D[1] else D[0]
    dx, dy = D * np.ones(2)
    g = nprng(cfg['seed'])
    S.eigs_seed = 3
    eps = g.uniform(1, 1.5, SHAPE)
    eps[:, 8:12] += 8
    eps[10:14, :] += 7
    eps[9:15, 7:13] += g.uniform(0, 4, (6, 6))
    wl = cfg['wl']
    names = {p[0]: Name(p[0], p[2]) for p in cfg['ports']}
    where = {p[0]: tuple(p[1]) + (0, 0) for p in cfg['ports']}
    order = [p[0] for p in cfg['ports']]
    sim = FDFD(SIZE, D, eps=eps, wavelength=wl)
    sim.port = {names[n]: Port(*where[n][:4]) for n in order}
    rg = RefGrid(SIZE, D, eps, wl)
    rp = RefPorts(SIZE, D, eps, where, wl)
    solved = {}

    def fields(src, pol='tm', num=1):
        key = (tuple(sorted(src.items())), pol)
        if key not in solved:
            solved[key] = rg.solve(rp.source2d(src), pol)
        return solved[key]

    def usable(pairs):
        """Enough guided, well separated modes with a usable phase reference at the ports."""
        num = {}
        for n, k in pairs:
            num[n] = max(num.get(n, 0), k + 1)
        for n, c in num.items():
            md = rp.modes(n, c)
            if len(md.betas) < c or np.min(np.abs(md.modes[:, 0])) < 1e-3:
                return False
            more = rp.modes(n, c + 1).betas
            if len(more) > 1 and np.min(np.abs(np.diff(more))) < 2e-2:
                return False
        return True

    def step(op):
        nonlocal order
        meas = [(n, k) for n, k in op['meas'] if n in where]
        src = tuple(op['src'])
        k, form = op['op'], op['form']
        gg = nprng(op['seed'])
        if k == 'reorder':
            order = [order[j] for j in op['order'] if j < len(order)]
            sim.port = {names[n]: Port(*where[n][:4]) for n in order}
            ctx.log('reorder', order)
            return
        if form == 'default' or k in ('decorate',):
            meas, src = [(n, 0) for n in order], (src[0], 0)
        if form == 'names' and k in ('superpose', 'measure'):
            meas, src = [(n, 0) for n in dict.fromkeys(n for n, _ in meas)], (src[0], 0)
        if src not in meas:
            meas.append(src)
        if form == 'dict' and k == 'measure':
            grouped = {}
            for n, m in meas:
                grouped.setdefault(n, []).append(m)
            meas = [(n, m) for n, ms in grouped.items() for m in ms]
        if not usable(meas):
            return
        info = [(names[n], m) for n, m in meas]
        arg = None if form == 'default' else list(info)
        msg = f'{k} of {meas} from {src}, ports {order}'
        if k in ('sparams', 'sim-sparams'):
            f = fields({src: 1})
            out, inn = rp.measure(f, meas)
            want = out / inn[meas.index(src)]
            scale = np.max(np.abs(out)) / np.abs(inn[meas.index(src)])
            if np.abs(inn[meas.index(src)]) < 1e-2 * np.max(np.abs(inn)):
                return
            if k == 'sparams':
                got = np.asarray(sim.sparams(names[src[0]], src[1], arg))
            else:
                pol = op['tm']
                if not pol:
                    f = fields({src: 1}, 'te')
                    out, inn = rp.measure(f, meas, False)
                    want = out / inn[meas.index(src)]
                    if np.abs(inn[meas.index(src)]) < 1e-2 * np.max(np.abs(inn)):
                        return
                fn = sim.get_sim_sparams_fn(names[src[0]], None, src[1], measure_info=arg, tm_2d=pol)
                got, gf = fn(sim.eps)
                ctx.close(np.asarray(gf), f, 'wrong-fields', tol=1e-4, msg=msg)
                got = np.asarray(got)
            ctx.check(got.shape == want.shape, 'wrong-sparams', lambda: f'{msg} shape {got.shape}')
            ctx.close(got, want, 'wrong-sparams', tol=1e-4, scale=max(1., float(scale)), msg=msg)
        elif k == 'superpose':
            w = {p: complex(*gg.uniform(-1, 1, 2)) for p in meas}
            given = {((names[n]) if form == 'names' else (names[n], m)): v for (n, m), v in w.items()}
            if form == 'default':
                w = {p: round(abs(v), 6) for p, v in w.items()}
                given = tuple(w[(n, 0)] for n in order)
            got = sim.port_source(given)
            ctx.close(got, rp.source2d(w), 'wrong-source', tol=1e-5, msg=msg)
            f = sim.solve(got)
            a = np.asarray(sim.get_measure_fn(info)(f))
            parts = sum(v * rp.measure(fields({p: 1}), meas) for p, v in w.items())
            ctx.close(a, parts, 'wrong-superposition', tol=1e-4, msg=msg)
        elif k in ('measure', 'sim-fn'):
            f = gg.standard_normal((2, 3) + SHAPE + (1,)) + 1j * gg.standard_normal((2, 3) + SHAPE + (1,))
            if k == 'measure':
                if form == 'names':
                    arg = [names[n] for n, _ in meas]
                elif form == 'dict':
                    arg = {names[n]: m for n, m in grouped.items()}
                elif form == 'default':
                    arg = None
                elif len(info) == 1 and op['seed'] % 2:
                    arg = info[0]
                got = np.asarray(sim.get_measure_fn(arg, tm_2d=op['tm'])(f))
                ctx.close(got, rp.measure(f, meas, op['tm']), 'wrong-measurement', tol=1e-4, msg=msg)
            else:
                base = [(n, 0) for n in order]
                if not usable(base):
                    return
                s = rp.source2d({(src[0], 0): 1})
                got, gf = sim.get_sim_fn(s)(sim.eps)
                ctx.close(np.asarray(got), rp.measure(fields({(src[0], 0): 1}), base), 'wrong-measurement', tol=1e-4, msg=msg)
        elif k == 'fidelity':
            sp = gg.standard_normal(len(meas)) + 1j * gg.standard_normal(len(meas))
            want = {p: complex(*gg.uniform(-1, 1, 2)) for p in meas if gg.uniform() < .7 or p == src}
            desired = {(names[n] if m == 0 and gg.uniform() < .5 else (names[n], m)): v for (n, m), v in want.items()}
            if gg.uniform() < .3:   # real weights of both signs
                want = {p: v.real or .5 for p, v in want.items()}
                desired = {n: v.real or .5 for n, v in desired.items()}
            items = list(desired.items())
            gg.shuffle(items)
            before = dict(items)
            cost, (s2, f2) = sim.fidelity(before, arg, op['iw'])((sp, np.zeros(3)))
            norm = np.sqrt(sum(abs(v) ** 2 for v in want.values()))
            amp = sum(v / norm * sp[meas.index(p)] for p, v in want.items())
            ins = np.linalg.norm(sp)
            ref = -abs(amp) ** 2 if op['iw'] == 0 else -abs(amp / ins) ** 2 * (1 - op['iw']) - ins ** 2 * op['iw']
            ctx.close(float(cost), ref, 'wrong-fidelity', tol=1e-6, msg=msg)
            ctx.close(np.asarray(s2), sp, 'wrong-fidelity', tol=1e-7, msg=msg + ' sparams handed through')
        elif k == 'decorate':
            sp = gg.standard_normal(len(order))
            f = gg.standard_normal((2, 3) + SHAPE + (1,))
            ds, de, dh = sim.decorate(sp, f)
            for j, n in enumerate(order):
                ctx.check(float(ds.sel(port=n)) == sp[j], 'wrong-label', lambda: f'{msg} {n}')
            x, y = int(gg.randint(SHAPE[0])), int(gg.randint(SHAPE[1]))
            for c, d in enumerate('xyz'):
                ctx.check(float(de.sel(direction=d).sel(x=x * dx, y=y * dy, method='nearest').values.ravel()[0]) == f[0, c, x, y, 0],
                          'wrong-label', lambda: f'{msg} e')
                ctx.check(float(dh.sel(direction=d).sel(x=(x + .5) * dx, y=(y + .5) * dy, method='nearest').values.ravel()[0])
                          == f[1, c, x, y, 0], 'wrong-label', lambda: f'{msg} h')
            for a, n, d in (('x', SHAPE[0], dx), ('y', SHAPE[1], dy)):
                ctx.close(de[a].values, np.arange(n) * d, 'wrong-label', tol=1e-9, msg=f'{msg} {a} of e')
                ctx.close(dh[a].values, (np.arange(n) + .5) * d, 'wrong-label', tol=1e-9, msg=f'{msg} {a} of h')
        elif k == 'component':
            component(plan, ctx, op, gg, where, order, names, msg)
        ctx.log(k, meas, src, order)
        ctx.state(k, tuple(order), tuple(where[n][2] for n in order), tuple(meas))


    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        try:
            step(op)
        except RuntimeError as e:   # the native solver meets zero pivots for some permittivities: then always
            if 'perturbed pivot' not in str(e):
                raise
            ctx.probe('refused by the solver')
            if op['op'] == 'component':
                continue
            fresh = FDFD(SIZE, D, eps=eps, wavelength=wl)
            refused = 0
            for tm in (True, False):
                try:
                    fresh.solve(np.ones(SHAPE, complex), tm_2d=tm)
                except RuntimeError:
                    refused += 1
            ctx.check(refused, 'refused', f'{op["op"]}: refused by the solver, a new simulation is not')

def component(plan, ctx, op, gg, where, order, names, msg):
    """Component.from_fdfd labels its model with wavelengths and ports."""
    from simphox.circuit.component import Component
    mask = np.zeros(SHAPE, int)
    mask[:, 8:12] = 1
    mask[10:14, :] = 1
    mask[9:11, 6:8] = 1
    bar = []
    pat = Pattern(mask, (0, 0, 2.2, 1.8), {names[n]: PPort(*where[n][:4]) for n in order})
    wls = [1.3, 1.5] if op['seed'] % 2 else [1.5, 1.3]
    ins = [order[j] for j in op['order'] if j < len(order)]
    kw = {} if op['form'] == 'default' else {'in_ports': ins[:max(1, len(ins) - op['seed'] % 2)], 'out_ports': ins[::-1]}
    factor = [3, 3, 2][op['seed'] // 2 % 3]
    if factor != 3:
        kw['profile_size_factor'] = factor

    def pbar(x):
        bar.append(len(x))
        return x
    variant = op['seed'] // 6 % 4
    if variant:
        kw.update(bg_eps=1.1, sub_z=.525)
    if variant == 3:
        kw.update(rib_t=.1)
    c = Component.from_fdfd(pat, 9., 1., .1, wls, (.1, .1), None, 'test', pbar=pbar if op['tm'] else None, **kw)
    eps = np.full(SHAPE, 1.1 if variant else 1.)
    if variant == 3:   # the slab of a rib
        eps[:, :6] = 9.
    if variant:
        eps[:, :5] = 1.
    eps[mask == 1] = 9.
    ctx.check(c.structure is pat and c.name == 'test', 'wrong-label', msg)
    for w in wls:
        rp = RefPorts(SIZE, D, eps, where, w, factor=factor)
        rg = RefGrid(SIZE, D, eps, w)
        for a in kw.get('in_ports', order):
            f = rg.solve(rp.source2d({(a, 0): 1}), 'tm')
            out, inn = rp.measure(f, [(n, 0) for n in order])
            s = out / inn[order.index(a)]
            if abs(inn[order.index(a)]) < .02 * np.max(np.abs(inn)):
                continue
            for b in kw.get('out_ports', order):
                got = complex(c.model.sel(wavelengths=w, in_ports=a, out_ports=b))
                ctx.close(got, s[order.index(b)], 'wrong-label', tol=1e-3, scale=max(1, np.max(np.abs(s))),
                          msg=f'{msg} component model {a} -> {b} at {w}')
