"""C06: objects are isolated from each other, from the caller's data and from the results they handed out."""
import copy

import numpy as np

from ..core import nprng, sig
from ..ref import RefFDTD, RefGrid, RefModes, RefPorts, backward_error

ID = 'C06'
TITLE = 'Simulations, libraries and the data of the caller do not share state'
LEVEL = 'exploration'
RUNS = {'quick': 420, 'thorough': 8000}
NOTE = 'Seeded search over histories of a pool of objects, caller arrays and results; not exhaustive.'
RULE = ('a pool of up to 7 grids, simulations, mode solvers, libraries and mask functions made from two caller arrays or '
        'from each other, with 10-30 edits, uses and overwritten results, and a check of everything after each.')
STATE = 'hash of (operation, kind of the object, kinds of the others)'
REAL = ['simphox.grid', 'simphox.fdfd', 'simphox.fdtd (numpy)', 'simphox.mode', 'simphox.sim', 'simphox.mkl',
        'Intel MKL Pardiso', 'scipy eigs']
STUB = ['ARPACK start vector (seeded)']
ASSUMES = ['a mode library made by ModeLibrary(solver) owns that solver (it keeps a reference by design)',
           'the attributes eps and port are the object\'s own state, which the caller may edit']
PROPERTY = {
    'statement': 'Grids, simulations, mode solvers, mode libraries, port cross sections and mask functions are isolated: '
                 'editing one (its permittivity, ports, wavelength or modes) never changes another, also when they were '
                 'made from the same array or from each other. They do not change when the caller reuses the arrays, '
                 'dicts and lists that were passed in, nor when the caller overwrites results. Results already handed '
                 'out never change later, and no operation modifies its arguments.',
    'quantifier': {'over': ['histories'],
                   'text': 'all histories of creating, deriving, editing and using several objects with shared inputs'},
    'why_tests_cant': 'The tests make one object per test from fresh inputs and drop it; sharing only shows in '
                      'histories with several live objects and reused arrays.',
    'anchors': {
        'files': ['simphox/grid.py', 'simphox/sim.py', 'simphox/mode.py', 'simphox/fdfd.py', 'simphox/fdtd.py'],
        'state': [{'name': 'eps, port, mode cache', 'meaning': 'state of each object', 'where': 'simphox/grid.py, simphox/sim.py'},
                  {'name': 'library', 'meaning': 'modes, propagation constants, wavelength', 'where': 'simphox/mode.py ModeLibrary'}],
        'mechanism': [{'name': 'copies at the boundaries', 'where': 'Grid.__init__, mask_fn, from_simgrid, SimGrid.modes'}],
        'observe_at': ['attributes and results of each object after operations on others'],
        'hook_needed': None},
}
D, SHAPE = .1, (20, 16)
SIZE = (2., 1.6)
PORTS = {'a0': (.3, .8, 180, .4), 'b0': (1.7, .8, 0, .4)}


def setup():
    import simphox.fdfd, simphox.fdtd, simphox.mkl, simphox.mode  # noqa


def gen(rng, tier):
    ops = []
    for i in range(rng.randrange(10, 30)):
        k = rng.weighted([('new', 5 if i > 3 else 15), ('derive', 5), ('edit', 6), ('edit-array', 4), ('use', 10),
                          ('scribble', 5), ('ports', 2), ('update', 3), ('again', 3), ('drop', 1)])
        ops.append({'op': k, 'seed': rng.seed32(), 'i': rng.randrange(7), 'arr': rng.randrange(2),
                    'kind': rng.choice(['fdfd', 'fdfd', 'fdtd', 'sim', 'grid', 'solver', 'mask', 'mask', 'xs', 'xs', 'clone']),
                    'edit': rng.choice(['part', 'set_eps', 'assign-array', 'fill', 'scale']),
                    'use': rng.choice(['solve', 'source', 'source', 'measure', 'sparams', 'eps_t', 'sweep', 'fields_fn', 'mask']),
                    'wl': rng.choice([1.2, 1.4, 1.55]), 'port': rng.choice(['a0', 'b0'])})
    return {'config': {'seed': rng.seed32()}, 'ops': ops}


def new_eps(g):
    e = g.uniform(1, 2, SHAPE)
    e[:, 6:10] += 6
    return e


def run(plan, ctx):
    from simphox.fdfd import FDFD
    from simphox.fdtd import FDTD
    from simphox.grid import Grid, Port
    from simphox.mode import ModeLibrary, ModeSolver
    from simphox.sim import SimGrid
    from ..seams import S
    S.eigs_seed = 4
    g = nprng(plan['config']['seed'])
    arrays = [new_eps(g), new_eps(g)]
    pool = []       # dicts: kind, obj, eps (model), wl, ports
    results = []    # [what, object, deep copy]
    ports0 = {k: Port(*v) for k, v in PORTS.items()}

    def add(kind, obj, eps, wl=None, ports=None, **kw):
        pool.append({'kind': kind, 'obj': obj, 'eps': np.array(eps), 'wl': wl, 'ports': ports, **kw})
        if len(pool) > 7:
            pool.pop(0)

    def keep(what, value):
        results.append([what, value, copy.deepcopy(value)])
        if len(results) > 8:
            results.pop(0)

    def pick(op, kinds):
        c = [p for p in pool if p['kind'] in kinds]
        return c[op['i'] % len(c)] if c else None

    def arrays_of(x):
        if isinstance(x, np.ndarray):
            return [x]
        if isinstance(x, (tuple, list)):
            return sum([arrays_of(v) for v in x], [])
        if isinstance(x, dict):
            return sum([arrays_of(v) for v in x.values()], [])
        return []

    def look(p, msg, deep=False):
        """p is what its own history made it."""
        o, k = p['obj'], p['kind']
        if k == 'mask':
            rho = np.full(SHAPE, 3.3)
            ctx.close(np.asarray(o(rho)), np.where(p['mask'] == 1, rho, p['eps']), 'mask-changed', tol=1e-6, msg=msg)
            return
        if k == 'xs':
            lib = o.io
            ctx.check(abs(lib.solver.wavelength - p['wl']) < 1e-12, 'library-changed', f'{msg} wavelength')
            ref = p['ref']
            ctx.check(len(lib.betas) == len(ref.betas), 'library-changed', f'{msg} number of modes')
            ctx.close(lib.betas, ref.betas, 'library-changed', tol=1e-6, msg=msg + ' betas')
            for j in range(len(ref.betas)):
                f = lib.modes[j]
                ctx.check(abs(np.linalg.norm(f) - 1) < 1e-6 and
                          backward_error(ref.c, f, ref.betas[j] ** 2 * f) < 1e-6, 'library-changed', f'{msg} modes')
                ref.modes[j] = f
                ctx.close(lib.e(j), ref.e(j), 'library-changed', tol=1e-6, msg=msg + ' e')
            ctx.close(np.asarray(lib.eps), p['eps'], 'library-changed', tol=1e-12, msg=msg + ' eps')
            return
        ctx.close(np.asarray(o.eps), p['eps'], 'eps-changed', tol=1e-12, msg=msg)
        if p['ports'] is not None:
            ctx.check({n: (q.x, q.y, q.a, q.w) for n, q in o.port.items()} == p['ports'], 'ports-changed',
                      lambda: f'{msg} {list(o.port)}')
        if k in ('fdfd', 'solver'):
            ctx.check(abs(o.wavelength - p['wl']) < 1e-12 and abs(o.k0 - 2 * np.pi / p['wl']) < 1e-12,
                      'wavelength-changed', lambda: f'{msg} {o.wavelength}, expected {p["wl"]}')
        if not deep:
            return
        if k == 'fdfd':
            src = np.zeros(SHAPE, complex)
            src[5, 5] = 1
            RefGrid(SIZE, D, p['eps'], p['wl']).check_fields(ctx, o.solve(src), src, 'tm', 'behaviour-changed', msg=msg)
        elif k == 'fdtd':
            st = o.zero_state
            rf = RefFDTD(SIZE, D, p['eps'])
            s = [(np.ones(3), None, (2, 4, slice(3, 6), 0))]
            for _ in range(3):
                st = o.step(st, s)
                rf.step(s)
            ctx.close(np.asarray(st[0]), rf.e, 'behaviour-changed', tol=1e-10, msg=msg)
        elif k == 'solver':
            ref = RefModes(p['eps'], D, p['wl'], 1)
            ctx.close(o.solve(1)[0], ref.betas, 'behaviour-changed', tol=1e-6, msg=msg)

    def fresh_source(p, port, wl=None):
        ref = RefPorts(SIZE, D, p['eps'], {n: v + (0, 0) for n, v in p['ports'].items()}, wl or p['wl'] or 1.55)
        return ref, ref.source2d({(port, 0): 1})

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        gg = nprng(op['seed'])
        k = op['op']
        a = arrays[op['arr']]
        done = k
        if k == 'new' or not pool:
            kind = op['kind']
            ports = {n: Port(*v) for n, v in PORTS.items()} if op['seed'] % 2 else dict(ports0)
            if kind == 'fdfd':
                o = FDFD(SIZE, D, eps=a, wavelength=op['wl'])
            elif kind == 'fdtd':
                o = FDTD(SIZE, D, eps=a, use_jax=False)
            elif kind == 'sim':
                o = SimGrid(SIZE, D, eps=a)
            elif kind == 'solver':
                o = ModeSolver((1.6,), D, op['wl'], eps=a[7])
                add('solver', o, a[7], op['wl'])
                o = None
            else:
                kind = 'grid'
                o = Grid(SIZE, D, eps=a)
            if o is not None:
                o.port = ports
                add(kind, o, a, op['wl'] if kind == 'fdfd' else None, dict(PORTS))
            done = 'new ' + kind
        elif k == 'derive':
            p = pick(op, ('fdfd', 'fdtd', 'sim', 'grid'))
            if p is None:
                continue
            kind = op['kind']
            if kind == 'mask':
                fn = p['obj'].mask_fn((1., .8, 0), (1., .8, 0))
                mk = np.zeros(SHAPE)
                mk[5:15, 4:12] = 1
                add('mask', fn, p['eps'], mask=mk)
            elif kind == 'xs' and p['kind'] != 'grid':
                cross = p['eps'][7]
                xs = p['obj'].modes((.7, .8, 0), (0, 1.6, 0), wavelength=op['wl'], num_modes=1)
                add('xs', xs, cross, op['wl'], ref=RefModes(cross, D, op['wl'], 1), parent=p, wl0=op['wl'])
            elif kind == 'grid':
                o = Grid(SIZE, D, eps=p['obj'].eps)
                add('grid', o, p['eps'], None, {})
            elif kind == 'fdtd':
                o = FDTD(SIZE, D, eps=p['obj'].eps, use_jax=False)
                add('fdtd', o, p['eps'], None, {})
            elif kind == 'solver':
                o = ModeSolver((1.6,), D, op['wl'], eps=p['obj'].eps[9])
                add('solver', o, p['eps'][9], op['wl'])
            elif p['kind'] != 'grid':
                o = FDFD.from_simgrid(p['obj'], op['wl'])
                add('fdfd', o, p['eps'], op['wl'], dict(p['ports']))
                kind = 'clone'
            done = f'derive {kind} from {p["kind"]}'
        elif k == 'edit-array':
            how = op['seed'] % 3
            if how == 0:
                a[:] = new_eps(gg)
            elif how == 1:
                a[gg.randint(20), :] = 1 + gg.uniform(0, 5)
                a[:, 6:10] += .5
            else:
                a *= 1.1
                np.minimum(a, 12, out=a)
        elif k == 'edit':
            p = pick(op, ('fdfd', 'fdtd', 'sim', 'grid', 'solver'))
            if p is None:
                continue
            o, v = p['obj'], 2 + float(gg.uniform(0, 3))
            if op['edit'] == 'part' or p['kind'] == 'solver':
                o.eps[3:7] = v
                p['eps'][3:7] = v
            elif op['edit'] == 'set_eps':
                o.set_eps((1., .8, 0), (.4, .4, 0), v)
                p['eps'][8:12, 6:10] = v
            elif op['edit'] == 'assign-array':
                o.eps = a.copy()
                p['eps'] = a.copy()
            elif op['edit'] == 'fill':
                o.fill(.325, v)
                p['eps'][:, :3] = v
            else:
                o.eps *= .9
                o.eps += .3
                p['eps'] = p['eps'] * .9 + .3
            done = f'edit {op["edit"]} of {p["kind"]}'
        elif k == 'ports':
            p = pick(op, ('fdfd', 'fdtd', 'sim', 'grid'))
            if p is None:
                continue
            if op['seed'] % 2:
                p['obj'].port['c0'] = Port(.9, .8, 0, .4)
                p['ports'] = {**p['ports'], 'c0': (.9, .8, 0, .4)}
            else:
                p['obj'].port = {n: Port(*v) for n, v in PORTS.items()}
                p['ports'] = dict(PORTS)
            done = f'ports of {p["kind"]}'
        elif k == 'update':
            p = pick(op, ('xs',))
            if p is None:
                continue
            if op['seed'] % 3 == 0:
                p['obj'].io.modes[:] = 7.  # the caller spoils its own library
                p['obj'].io.betas[:] = 7.
                p['obj'].io.solver.eps[:] = 3.
                pool.remove(p)
                done = 'spoil library'
            else:
                p['obj'].io.update_wavelength(op['wl'])
                p['wl'], p['ref'] = op['wl'], RefModes(p['eps'], D, op['wl'], 1)
                done = 'update_wavelength'
        elif k == 'again':  # the same cross section once more
            p = pick(op, ('xs',))
            if p is None:
                continue
            if op['seed'] % 3 < 2:
                p['obj'].io.update_wavelength(op['wl'])
                p['wl'], p['ref'] = op['wl'], RefModes(p['eps'], D, op['wl'], 1)
            q, wl = p['parent'], p['wl0']
            cross = q['eps'][7]
            add('xs', q['obj'].modes((.7, .8, 0), (0, 1.6, 0), wavelength=wl, num_modes=1), cross, wl,
                ref=RefModes(cross, D, wl, 1), parent=q, wl0=wl)
            done = 'the same xs again'
        elif k == 'drop':
            pool.pop(op['i'] % len(pool))
        elif k == 'scribble':
            if not results:
                continue
            what, value, _ = results.pop(op['i'] % len(results))
            n = 0
            for x in arrays_of(value):
                if x.flags.writeable and x.size:
                    x[...] = -77
                    n += 1
            done = f'scribble {what}'
            ctx.probe('scribbled arrays', n)
        elif k == 'use':
            u = op['use']
            wl = op['wl']
            if u == 'sweep':
                p = pick(op, ('solver',))
            elif u in ('solve', 'sparams', 'fields_fn'):
                p = pick(op, ('fdfd',))
            elif u == 'mask':
                p = pick(op, ('fdfd', 'grid', 'sim', 'fdtd'))
            else:
                p = pick(op, ('fdfd', 'fdtd', 'sim'))
            if p is None:
                continue
            o = p['obj']
            ports_ok = p['ports'] is not None and op['port'] in p['ports']
            if u == 'sweep':
                wls = np.array([wl, 1.3])
                arg = wls.copy()
                r = o.dispersion_sweep(wls, 1)
                ctx.same(wls, arg, 'argument-modified', 'wavelengths')
                for w, (b, md) in zip(arg, r):
                    ctx.close(b, RefModes(p['eps'], D, w, 1).betas, 'behaviour-changed', tol=1e-6, msg='sweep')
                keep('modes', r)
            elif u == 'solve':
                src = gg.standard_normal(SHAPE) + 0j
                arg = src.copy()
                r = o.solve(src)
                ctx.same(src, arg, 'argument-modified', 'source')
                RefGrid(SIZE, D, p['eps'], p['wl']).check_fields(ctx, r, arg, 'tm', 'behaviour-changed')
                keep('fields', r)
            elif u == 'source':
                if not ports_ok:
                    continue
                d = {(op['port'], 0): .7}
                arg = dict(d)
                r = o.port_source(d) if p['kind'] == 'fdfd' else o.port_source(d, wavelength=wl)
                ctx.check(d == arg, 'argument-modified', 'source dict')
                ref, want = fresh_source(p, op['port'], None if p['kind'] == 'fdfd' else wl)
                ctx.close(r, .7 * want, 'behaviour-changed', tol=1e-5, msg='source')
                keep('source', r)
            elif u in ('measure', 'sparams'):
                if not ports_ok or (u == 'sparams' and 'c0' in p['ports']):
                    continue
                ref, src = fresh_source(p, op['port'], None if p['kind'] == 'fdfd' else wl)
                if u == 'measure':
                    info = [(op['port'], 0)]
                    arg = list(info)
                    fn = o.get_measure_fn(info) if p['kind'] == 'fdfd' else o.get_measure_fn(info, wl)
                    f = gg.standard_normal((2, 3, 20, 16, 1)) + 1j * gg.standard_normal((2, 3, 20, 16, 1))
                    fa = f.copy()
                    r = np.asarray(fn(f))
                    ctx.check(info == arg, 'argument-modified', 'measure_info')
                    ctx.same(f, fa, 'argument-modified', 'fields')
                    ctx.close(r, ref.measure(fa, info), 'behaviour-changed', tol=1e-5, msg='measure')
                else:
                    info = [(n, 0) for n in p['ports']]
                    arg = list(info)
                    r = np.asarray(o.sparams(op['port'], 0, info))
                    ctx.check(info == arg, 'argument-modified', 'measure_info')
                    out, inn = ref.measure(RefGrid(SIZE, D, p['eps'], p['wl']).solve(src, 'tm'), arg)
                    ctx.close(r, out / inn[arg.index((op['port'], 0))], 'behaviour-changed', tol=1e-4, msg='sparams')
                keep(u, r)
            elif u == 'eps_t':
                r = np.asarray(o.eps_t)
                ctx.close(r, RefGrid(SIZE, D, p['eps']).eps_t(), 'behaviour-changed', tol=1e-12, msg='eps_t')
                keep('eps_t', r)
            elif u == 'fields_fn':
                rho = np.array(p['eps'])
                arg = rho.copy()
                src = np.zeros(SHAPE, complex)
                src[6, 6] = 1
                fn = o.get_fields_fn(src)
                src[:] = 5  # the caller reuses its array
                r = np.array(fn(rho))
                ctx.same(rho, arg, 'argument-modified', 'rho')
                src[:] = 0
                src[6, 6] = 1
                RefGrid(SIZE, D, p['eps'], p['wl']).check_fields(ctx, r, src, 'tm', 'behaviour-changed', msg='fields_fn')
                keep('fields', r)
            elif u == 'mask':
                r = o.mask((1., .8, 0), (.4, .4, 0))
                want = np.zeros(SHAPE)
                want[8:12, 6:10] = 1
                ctx.close(r, want, 'behaviour-changed', msg='mask')
                keep('mask', r)
            done = f'use {u} of {p["kind"]}'
        ctx.log(done, [p['kind'] for p in pool], [sig(p['eps']) for p in pool])
        ctx.state(done, tuple(sorted(p['kind'] for p in pool)))
        for j, p in enumerate(pool):
            look(p, f'{p["kind"]} {j} after {done}:', deep=(i + j) % 4 == 0)
        for what, value, snap in results:
            for x, y in zip(arrays_of(value), arrays_of(snap)):
                ctx.same(x, y, 'result-changed', f'{what} handed out earlier, after {done}:')
    for j, p in enumerate(pool):
        look(p, f'{p["kind"]} {j} at the end:', deep=True)
