"""C07: port modes, sources and measurements are those of the present permittivity, ports and wavelength."""
import numpy as np

from ..core import nprng, sig
from ..ref import RefPorts, backward_error

ID = 'C07'
TITLE = 'Port sources and measurements follow the structure and the wavelength'
LEVEL = 'exploration'
RUNS = {'quick': 360, 'thorough': 10000}
NOTE = 'Seeded search over histories of edits, wavelengths and requests on one simulation; not exhaustive.'
RULE = ('one 2d or 3d simulation with 1-4 ports and 6-22 operations: equal or unequal spacings, with or without PML: edits near and away from the ports, other default wavelengths, moved ports, '
        'returns to earlier permittivities, more than 128 distinct cross sections, failing mode solves, and requests.')
STATE = 'hash of (kind, edits since the last equal request, request)'
REAL = ['simphox.sim', 'simphox.mode', 'simphox.grid', 'simphox.parse', 'scipy eigs']
STUB = ['ARPACK start vector and its failures']
ASSUMES = ['the ports are far enough from the edge for their cross section to lie inside the grid']
PROPERTY = {
    'statement': 'The modes, sources, mode profiles and measurements a simulation gives for its ports always belong to '
                 'the permittivity, the ports, the wavelength, the mode number and the profile size at the time of the '
                 'request, however often they were requested before, in whichever order, and whatever was edited in '
                 'between or failed before. A source is the weighted sum over the requested ports and modes; a '
                 'measurement is the overlap with the modes of the requested ports, outgoing and incoming.',
    'quantifier': {'over': ['histories', 'fault_sequences'],
                   'text': 'all histories of edits, port changes, wavelengths and requests to one simulation'},
    'why_tests_cant': 'The tests request the modes of a fresh simulation once; the mode cache only matters when the '
                      'structure, the ports or the wavelength change between requests.',
    'anchors': {
        'files': ['simphox/sim.py', 'simphox/mode.py', 'simphox/grid.py', 'simphox/parse.py'],
        'state': [{'name': 'mode cache', 'meaning': 'solved cross sections by permittivity, wavelength and mode number',
                   'where': 'simphox/sim.py SimGrid.modes'}],
        'mechanism': [{'name': 'cache key and eviction', 'where': 'simphox/sim.py SimGrid.modes'}],
        'observe_at': ['modes, port_modes, port_source, get_measure_fn, SimCrossSection.profile/slice/place'],
        'hook_needed': None},
}
SHAPES = {2: (24, 20), 3: (12, 12, 9)}
NAMES = ['a0', 'b0', 'c0', 'd0']


def setup():
    import simphox.fdfd, simphox.fdtd, simphox.mkl  # noqa


def port(rng, nd, name):
    if nd == 2:
        a = rng.choice([0, 180, 90, 270, -90, 360])
        w = rng.choice([.4, .5, .6])
        along = a % 180 == 0
        x = rng.choice([.3, .4, .5, 1.9, 2., 2.1]) if along else 1.2
        y = 1.0 if along else rng.choice([.3, .4, 1.5, 1.7])
        return [x, y, a, w, 0, 0]
    a = rng.choice([0, 180, 90, 270])
    x, y = (rng.choice([.3, .9]), .6) if a % 180 == 0 else (.6, rng.choice([.3, .9]))
    return [x, y, a, .3, .4, .2]


def gen(rng, tier):
    nd = rng.choice([2, 2, 2, 3])
    kind = rng.choice(['fdfd', 'fdfd', 'fdtd', 'sim'])
    names = NAMES[:rng.randrange(1, 5)]
    rng.shuffle(names)
    ports = {n: port(rng, nd, n) for n in names}
    reqs = ['source', 'measure', 'modes', 'profile', 'xs'] if nd == 2 else ['measure', 'modes', 'profile', 'xs']
    ops = []
    for _ in range(rng.randrange(6, 22 if nd == 2 else 10)):
        k = rng.weighted([('edit', 4), ('back', 2), ('move', 1.5), ('request', 10), ('churn', .25 if nd == 2 else 0),
                          ('wavelength', 1 if kind == 'fdfd' else 0)])
        op = {'op': k, 'seed': rng.seed32()}
        if k == 'edit':
            op['where'] = rng.choice(['core', 'core', 'far', 'all', 'one-cell', 'one-cell', 'copy', 'copy'])
        elif k == 'wavelength':
            op['wl'] = rng.choice([1.25, 1.4, 1.55])
        elif k == 'move':
            op.update(name=rng.choice(names), port=port(rng, nd, ''))
        elif k == 'request':
            n = rng.randrange(1, 4)
            op.update(req=rng.choice(reqs), wl=rng.choice([None, 1.2, 1.4, 1.4, 1.55]),
                      what=[[rng.choice(names), rng.choice([0, 0, 1, 2]), round(rng.uniform(-1, 1), 3),
                             round(rng.uniform(-1, 1), 3)] for _ in range(n)],
                      factor=rng.choice([3, 3, 2]) if nd == 2 else rng.choice([3, 2]), tm=rng.chance(.7), uni=rng.chance(.8),
                      form=rng.choice(['tuple', 'tuple', 'tuple', 'name', 'default', 'dict', 'single', 'label', 'mixed']), use_jax=rng.chance(.1))
            if rng.chance(.12):
                op['fault'] = {'exc': rng.choice(['noconv', 'MemoryError', 'KeyboardInterrupt']), 'skip': 0}
        ops.append(op)
    spacing = rng.choice([[.1] * 3, [.1] * 3, [.1, .12, .1], [.12, .1, .1], [.1, .1, .12]])
    return {'config': {'nd': nd, 'kind': kind, 'spacing': spacing,
                       'pml': rng.choice([None, None, [4, 1], [4, 3], [5, 0]]) if nd == 2 else None, 'ports': ports, 'seed': rng.seed32(), 'wl': rng.choice([1.3, 1.45])}, 'ops': ops}


def structure(g, nd):
    shape = SHAPES[nd]
    e = g.uniform(1, 1.6, shape)
    if nd == 2:
        e[:, 7:13] += 8
        e[9:15, :] += 6
    else:
        e[:, 4:8, 3:6] += 8
        e[4:8, :, 3:6] += 6
    return e


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    from simphox.sim import SimGrid
    from ..seams import S
    cfg = plan['config']
    nd, kind = cfg['nd'], cfg['kind']
    shape = SHAPES[nd]
    d = tuple(cfg['spacing'][:nd])
    d = d[0] if len(set(d)) == 1 else d
    size = tuple(n * s for n, s in zip(shape, cfg['spacing']))
    pml = None if cfg['pml'] is None else tuple((cfg['pml'][0] + .3) * s for s in np.ones(nd) * d)
    sep = 5 if pml is None else cfg['pml'][1]
    g = nprng(cfg['seed'])
    m = structure(g, nd)
    if kind == 'fdfd':
        sim, default_wl = FDFD(size, d, eps=m.copy(), wavelength=cfg['wl'], pml=pml, pml_sep=sep), cfg['wl']
    elif kind == 'fdtd':
        sim, default_wl = FDTD(size, d, eps=m.copy(), use_jax=False, pml=pml, pml_sep=sep), 1.55
    else:
        sim, default_wl = SimGrid(size, d, eps=m.copy(), pml=pml, pml_sep=sep), 1.55
    ports = {n: tuple(p) for n, p in cfg['ports'].items()}
    sim.port = {n: Port(*p) for n, p in ports.items()}
    S.eigs_seed = cfg['seed']
    past = [m.copy()]
    since = []

    def reference(wl, factor, what):
        ref = RefPorts(size, d, m, ports, wl, pml, sep, factor=factor)
        num = {}
        for n, k, _, _ in what:
            num[n] = max(num.get(n, 0), k + 1)
        return ref, num

    def adopt(ref, num, libs, msg):
        """Checks the modes and takes over their numerical values (a mode is only defined up to its phase)."""
        ok = True
        for n, count in num.items():
            rm, lib = ref.modes(n, count), libs[n].io
            ctx.check(len(lib.betas) == len(rm.betas) == len(lib.modes), 'stale-modes',
                      lambda: f'{msg} port {n}: {len(lib.betas)} modes, expected {len(rm.betas)}')
            ctx.close(lib.betas, rm.betas, 'stale-modes', tol=1e-5, msg=f'{msg} betas of port {n}')
            for k in range(len(rm.betas)):
                v = np.asarray(lib.modes[k])
                f = v[:rm.c.shape[0]]
                ctx.check(abs(np.linalg.norm(f) - 1) < 1e-6 and backward_error(rm.c, f, rm.betas[k] ** 2 * f) < 2e-6,
                          'stale-modes', f'{msg} mode {k} of port {n} is not a mode of its cross section')
                if abs(v[0]) < 1e-3:
                    ok = False  # the phase reference vanishes
                gap = np.min(np.abs(np.delete(rm.betas, k) - rm.betas[k])) if len(rm.betas) > 1 else 1
                if gap < 1e-2:
                    ok = False
                rm.modes[k] = v
        return ok

    def request(op, tries=0):
        what = [tuple(w) for w in op['what'] if w[0] in ports]
        seen = {}
        for w in what:
            seen[(w[0], w[1])] = w
        what = list(seen.values())
        form = op['form']
        if form == 'dict':   # by port
            what = [w for n in dict.fromkeys(w[0] for w in what) for w in what if w[0] == n]
        elif form in ('single', 'label'):
            what = [w if form == 'single' else (w[0], 0, *w[2:]) for w in what[:1]]
            if op['req'] == 'source':
                what = [(n, k if form == 'single' else 0, 1., 0.) for n, k, _, _ in what]
        elif form not in ('tuple', 'mixed'):
            what = [(w[0], 0, w[2], w[3]) for w in {w[0]: w for w in what}.values()]
        if form == 'default':
            what = [(n, 0, 1., 0.) for n in ports] if op['req'] != 'source' else [(list(ports)[0], 0, 1., 0.)]
        wl = default_wl if op['wl'] is None else op['wl']
        kw = {} if op['wl'] is None else {'wavelength': op['wl']}
        if op['factor'] != 3:
            kw['profile_size_factor'] = op['factor']
        ref, num = reference(wl, op['factor'], what)
        for n, count in num.items():
            if len(ref.modes(n, count).betas) < count or np.ptp(ref.modes(n, count).eps) == 0:
                return  # not that many guided modes
        pairs = [(n, k) for n, k, _, _ in what]
        ask = {'tuple': lambda: pairs, 'name': lambda: [n for n, _ in pairs], 'default': lambda: None,
               'dict': lambda: {n: [k for p, k in pairs if p == n] for n, _ in pairs}, 'single': lambda: pairs[0], 'label': lambda: pairs[0][0],
               'mixed': lambda: [p if p[1] else p[0] for p in pairs]}[form]()
        msg = f'{op["req"]} {pairs} at {wl}' + (f' after {since}' if since else '')
        if op['req'] == 'xs':
            n, k = pairs[0]
            center, sz = ref.placement(n)
            xs = sim.modes(center, tuple(sz), wl, num[n])
            adopt(ref, {n: num[n]}, {n: xs}, msg)
            ctx.check(abs(xs.wavelength - wl) < 1e-12, 'stale-modes', msg + ' wavelength')
            return
        if op['req'] == 'modes':
            pm = sim.port_modes(ask, **kw)
            ctx.check(set(pm) == set(num), 'wrong-ports', lambda: f'{msg} gives {list(pm)}')
            adopt(ref, num, pm, msg)
            for n in num:
                center, sz = ref.placement(n)
                ctx.close(np.array(pm[n].center, float), np.array(center), 'wrong-place', scale=1, msg=msg)
                ctx.close(np.array(pm[n].size, float), np.array(sz, float), 'wrong-place', scale=1, msg=msg)
            return
        if op['req'] == 'profile':
            pm = sim.port_modes(ask, **kw)
            adopt(ref, num, pm, msg)
            for n, k in pairs:
                for use_h in (False, True):
                    ctx.close(np.asarray(pm[n].profile(k, use_h)), ref.profile(n, k, num[n], use_h), 'stale-profile',
                              tol=1e-5, msg=f'{msg} profile of {n}')
                # the slice of the simulation the profile belongs to
                field = np.arange(3 * np.prod(shape)).reshape((3,) + ref.grid.shape3)
                r, _ = ref.region(n)
                ctx.same(field[pm[n].slice(sim)].ravel(), field[(slice(None),) + r].ravel(), 'wrong-place', msg + ' slice')
            return
        pm = sim.port_modes(pairs, **kw)
        sure = adopt(ref, num, pm, msg)
        if op['req'] == 'source':
            weights = {(n, k): complex(re, im) for n, k, re, im in what}
            if form in ('tuple', 'dict', 'single'):
                arg = dict(weights)
            elif form == 'mixed':
                arg = {p if p[1] else p[0]: w for p, w in weights.items()}
            elif form == 'label':
                arg = pairs[0][0]
            elif form == 'name':
                arg = {n: w for (n, _), w in weights.items()}
                if set(arg) == set(ports):   # a tuple of weights, in the order of the ports
                    arg = tuple(arg[n] for n in sim.port)
            else:
                arg = None
            got = sim.port_source(arg, unidirectional=op['uni'], **kw)
            want = ref.source2d(weights, op['uni'])
            if sure:
                ctx.close(got, want, 'wrong-source', tol=1e-4, msg=msg)
            return
        fn = sim.get_measure_fn(ask, tm_2d=op['tm'], use_jax=op['use_jax'], **kw)
        gg = nprng(op['seed'])
        f = gg.standard_normal((2, 3) + ref.grid.shape3) + 1j * gg.standard_normal((2, 3) + ref.grid.shape3)
        got = np.asarray(fn(f))
        want = ref.measure(f, pairs, op['tm'])
        ctx.check(got.shape == want.shape, 'wrong-measurement', lambda: f'{msg} shape {got.shape}')
        if sure:
            ctx.close(got, want, 'wrong-measurement', tol=1e-4, msg=msg)
        ctx.log('measured', sig(want))

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        gg = nprng(op['seed'])
        k = op['op']
        if k == 'edit':
            if op['where'] == 'core':
                v = 8 * gg.uniform(0, 1)
                sl = (slice(None), slice(8, 12)) + (() if nd == 2 else (slice(3, 6),))
                if nd == 3:
                    sl = (slice(None), slice(4, 8), slice(3, 6))
                m[sl] = 5 + v
                sim.eps[sl] = 5 + v
            elif op['where'] == 'all':
                m = structure(gg, nd)
                sim.eps = m.copy()
            elif op['where'] == 'far':
                m[:2, :2] = 2 + gg.uniform(0, 1)
                sim.eps[:2, :2] = m[:2, :2]
            elif op['where'] == 'copy':   # the same waveguide at two ports, which may cross different axes
                at = [RefPorts(size, d, m, ports, 1.5, pml, sep, factor=f).region(n)[0][:nd] for n in ports for f in (3, 2)]
                at = [(a, b) for a in at for b in at if a != b and m[a].size == m[b].size and m[a].squeeze().shape == m[b].squeeze().shape]
                axis = lambda a: [s.stop - s.start for s in a].index(1)  # noqa
                at = [ab for ab in at if axis(ab[0]) != axis(ab[1])] or at
                if at:
                    a, b = at[gg.randint(len(at))]
                    sim.eps[b] = m[a].reshape(m[b].shape)
                    m[b] = m[a].reshape(m[b].shape).copy()
            else:
                n = list(ports)[gg.randint(len(ports))]
                r, _ = RefPorts(size, d, m, ports, 1.5, pml, sep).region(n)
                idx = tuple(gg.randint(s.start, s.stop) for s in r)[:nd]
                v = m[idx] + [1e-9, .004, 1, 2][gg.randint(4)]
                m[idx] = v
                sim.eps[idx] = v
            past.append(m.copy())
            since.append('edit ' + op['where'])
        elif k == 'back':
            m = past[gg.randint(len(past))].copy()
            sim.eps = m.copy()
            since.append('back to an earlier permittivity')
        elif k == 'wavelength':
            sim.wavelength = default_wl = op['wl']
            since.append('other wavelength')
        elif k == 'move':
            ports[op['name']] = tuple(op['port'])
            sim.port[op['name']] = Port(*op['port'])
            since.append('moved port')
        elif k == 'churn':  # more cross sections than are remembered
            n = list(ports)[0]
            ref = RefPorts(size, d, m, ports, 1.4, pml, sep)
            center, sz = ref.placement(n)
            r, _ = ref.region(n)
            for j in range(135):
                sim.eps[r[:nd]] = m[r[:nd]] + (j + 1) * .003
                sim.modes(center, tuple(sz), 1.4, 1)
            sim.eps = m.copy()
            ctx.probe('cross sections solved', 135)
            since.append('135 other cross sections')
        else:
            f = op.get('fault')
            if f:
                S.eigs_faults = [dict(f)]
                try:
                    request(op)
                    hit = False
                except (RuntimeError, MemoryError, KeyboardInterrupt):
                    hit = True
                    if S.eigs_faults:
                        raise
                ctx.check(hit or bool(S.eigs_faults), 'error-swallowed', 'a failing mode solve was not reported')
                S.eigs_faults = []
                since.append('failed mode solve')
            request(op)
            ctx.state(kind, nd, tuple(since[-2:]), op['req'])
            ctx.log(op['req'], len(op['what']), since[-1:])
            continue
        ctx.log(k, since[-1:], sig(m))
    for j, form in enumerate(('default', 'tuple')):
        request({'req': 'measure', 'wl': None, 'what': [(n, 0, 1., 0.) for n in ports], 'factor': 3, 'tm': True,
                 'uni': True, 'form': form, 'use_jax': False, 'seed': 5 + j})
    if nd == 2:
        request({'req': 'source', 'wl': None, 'what': [(n, 0, 1., .5) for n in ports], 'factor': 3, 'tm': True,
                 'uni': True, 'form': 'name', 'use_jax': False, 'seed': 5})
