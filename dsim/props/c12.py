"""C12: continuous-wave runs do not depend on how they are watched, and report what their fields are."""
import copy

import numpy as np

from ..core import nprng, sig
from ..ref import RefFDTD, RefPorts, backward_error
from .tdsim import device, host, leaves

ID = 'C12'
TITLE = 'CW runs are independent of how they are observed, stopped and resumed'
LEVEL = 'exploration'
RUNS = {'quick': 110, 'thorough': 5000}
TIME_UNIT = 'FDTD time (1/c, in units of the grid)'
NOTE = 'Seeded search over observers, failures of observers, interrupts, lengths, sources and edits; not exhaustive.'
RULE = ('one simulation with ports (2D or 3D, with or without PML, numpy or JAX) and 2-6 runs of run_cw_port with drawn '
        'lengths, sources, measured ports, progress bars and visualization pipes (recording, mutating their input, '
        'failing at a drawn step), interrupts, resumptions from earlier states and permittivity edits.')
STATE = 'hash of (observers, source, measurement, resumed, PML, backend, fault)'
REAL = ['simphox.fdtd', 'simphox.sim', 'simphox.mode', 'simphox.grid', 'simphox.parse', 'JAX', 'numpy', 'scipy eigs']
STUB = ['progress bar and visualization pipes (recording stand-ins)', 'ARPACK start vector (seeded)']
ASSUMES = ['a resumed run starts its source at phase zero (run_cw_port has no starting time)',
           'the cross sections of the ports are not uniform and guide the requested modes']
PROPERTY = {
    'statement': 'run_cw_port returns the fields of the leapfrog run driven by the modes of the source ports at the '
                 'given wavelength, polarization and profile size, starting from the given state (zero by default), and '
                 'one measurement per step (and one of the initial state) of exactly these fields, E and H taken at the '
                 'same time. Neither depends on progress bars, visualization pipes, their interval, or which ports '
                 'are measured; the pipes are sent the permittivity, the field and the power of their plane and step; a '
                 'shorter run is a prefix of a longer one; the initial state is left untouched; and after '
                 'an interrupt or a failing observer the simulation behaves as if that run had not been made.',
    'quantifier': {'over': ['histories', 'schedules', 'fault_sequences', 'inputs'],
                   'text': 'all sequences of runs of one simulation, all observers and the steps at which they fail, all sources, measurements and lengths'},
    'why_tests_cant': 'No test runs the FDTD; a run that is watched differently is a different history, and an observer '
                      'may fail at any step.',
    'anchors': {
        'files': ['simphox/fdtd.py', 'simphox/sim.py', 'simphox/mode.py'],
        'state': [{'name': 'state', 'meaning': 'fields handed from step to step and to the caller', 'where': 'simphox/fdtd.py run_cw_port'}],
        'mechanism': [{'name': 'loop', 'where': 'simphox/fdtd.py run_cw_port, _viz'},
                      {'name': 'sources and measurements', 'where': 'simphox/sim.py SimCrossSection.profile, get_measure_fn'}],
        'observe_at': ['FDTD.run_cw_port'],
        'hook_needed': None},
}
PORTS2 = {'a0': (.2, 1., 180, .4, 0, 0), 'b0': (2.3, 1., 0, .4, 0, 0), 't0': (1.2, 1.7, 90, .4, 0, 0)}
PORTS3 = {'a0': (.2, .6, 180, .3, .5, .2), 'b0': (1.2, .6, 0, .3, .5, .2)}
SHAPES = {2: (26, 20), 3: (14, 12, 10)}


def setup():
    import simphox.fdtd, simphox.mode  # noqa


def gen(rng, tier):
    nd = rng.weighted([(2, 6), (3, 1)])
    names = ['a0', 'b0', 't0'] if nd == 2 else ['a0', 'b0']
    ops = []
    for _ in range(rng.randrange(2, 7)):
        src = [[n, rng.choice([0, 0, 1]) if nd == 2 else 0] for n in rng.sample(names, rng.choice([1, 1, 1, 2]))]
        if nd == 2 and rng.chance(.2):  # another mode of a port
            src.insert(rng.randrange(len(src) + 1), [src[0][0], 1 - src[0][1]])
        meas = None if rng.chance(.35) else [[n, rng.choice([0, 0, 1]) if nd == 2 else 0]
                                             for n in rng.sample(names, rng.randrange(1, len(names) + 1))]
        k = rng.weighted([('run', 8), ('edit', 2)])
        op = {'op': k, 'n': rng.randrange(0, 16), 'src': src, 'meas': meas, 'tm': rng.chance(.65) if nd == 2 else True,
              'wl': rng.choice([1.55, 1.4, 1.2, None]), 'factor': rng.choice([3, 3, 2.5]),
              'form': rng.choice(['tuples', 'name']), 'seed': rng.seed32(), 'start': rng.choice(['zero', 'zero', 'last', 'kick']),
              'pbar': rng.choice([None, None, 'list', 'gen']), 'viz': rng.choice([None, None, 'send', 'mutate']), 'planes': rng.choice([['a0'], ['a0', ['b0', 0]], [['b0', 1]], [['a0', 2], 'b0']]),
              'interval': rng.choice([1, 1, 2, 3, 7]), 'viz_h': rng.chance(.5), 'axis': rng.randrange(3)}
        if k == 'run' and rng.chance(.35):
            op['fault'] = {'kind': rng.choice(['pbar', 'viz', 'line', 'line', 'eigs']), 'at': rng.randrange(0, 12),
                           'line': rng.randrange(20, 2500), 'exc': rng.choice(['KeyboardInterrupt', 'RuntimeError', 'MemoryError'])}
        ops.append(op)
    return {'config': {'nd': nd, 'pml': nd == 2 and rng.chance(.4), 'jax': nd == 2 and rng.chance(.15), 'seed': rng.seed32(),
                       'spacing': rng.choice([[.1] * 3, [.1] * 3, [.1, .12, .1], [.12, .1, .11]])}, 'ops': ops}


class Boom(Exception):
    pass


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError, 'MemoryError': MemoryError}


class Pipe:
    def __init__(self, log, name, mode, fail_at, exc):
        self.log, self.name, self.mode, self.fail_at, self.exc, self.n = log, name, mode, fail_at, exc, 0

    def send(self, x):
        self.n += 1
        if self.fail_at is not None and self.n > self.fail_at:
            raise self.exc('observer')
        self.log.append((self.name, np.array(x)))
        if self.mode == 'mutate':
            try:
                x *= 0
            except (ValueError, TypeError):
                pass


def run(plan, ctx):
    from simphox.fdtd import FDTD
    from simphox.grid import Port
    from ..seams import S, Interrupter
    cfg = plan['config']
    nd, jax = cfg['nd'], cfg['jax']
    shape = SHAPES[nd]
    D = tuple(cfg['spacing'][:nd])
    size = tuple(n * d for n, d in zip(shape, D))
    D = D[0] if len(set(D)) == 1 else np.array(D)
    g = nprng(cfg['seed'])
    S.eigs_seed = 12
    eps = g.uniform(1, 1.3, shape)
    if nd == 2:
        eps[:, 8:12] += 10
        eps[10:14, 12:] += 9
        ports = dict(PORTS2)
    else:
        eps[:, 4:8, 3:7] += 9
        ports = dict(PORTS3)
    pml = (.42 if np.ndim(D) == 0 else .52) if cfg['pml'] else None
    if cfg['pml']:
        ports.pop('t0')
    sim = FDTD(size, D, eps=eps.copy(), pml=pml, use_jax=jax)
    sim.port = {n: Port(*p) for n, p in ports.items()}
    last = None

    def the_run(op, start, observe):
        src = [tuple(s) for s in op['src'] if s[0] in ports] or [('a0', 0)]
        meas = None if op['meas'] is None else [tuple(m) for m in op['meas'] if m[0] in ports] or [('b0', 0)]
        if op['form'] == 'name' and len(src) == 1:
            src = [(src[0][0], 0)]
            arg = src[0][0]
        else:
            arg = list(src)
        kw = {} if op['wl'] is None else {'wavelength': op['wl']}
        if op['factor'] != 3:
            kw['profile_size_factor'] = op['factor']
        if start is not None:
            kw['initial_state'] = start
        log = []
        f = op.get('fault') if observe else None
        if observe and (op['pbar'] or f and f['kind'] == 'pbar'):
            def pbar(it):
                for j, x in enumerate(it):
                    if f and f['kind'] == 'pbar' and j >= f['at']:
                        raise EXC[f['exc']]('observer')
                    log.append(('pbar', j))
                    yield x
            kw['pbar'] = pbar if op['pbar'] == 'gen' or f and f['kind'] == 'pbar' else (lambda it: log.append(('pbar', len(it))) or list(it))
        if observe and (op['viz'] or f and f['kind'] == 'viz'):
            fail = f['at'] * 3 + 1 if f and f['kind'] == 'viz' else None
            exc = EXC[f['exc']] if f else None
            kw['viz_pipes'] = {k: tuple(Pipe(log, (k, nm), op['viz'], fail, exc) for nm in ('eps', 'field', 'power')) for k in planes(op)}
            kw['viz_interval'] = op['interval']
            kw['viz_h'], kw['viz_axis'] = op['viz_h'], op['axis']
        flux, st = sim.run_cw_port(op['n'], source_port=arg, measure_port=meas, tm_2d=op['tm'], **kw)
        return src, meas, flux, st, log

    def planes(op):
        return ['dev'] if nd == 2 else [k if isinstance(k, str) else tuple(k) for k in op['planes']]

    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        if op['op'] == 'edit':
            gg = nprng(op['seed'])
            sl = tuple(slice(gg.randint(n - 1), None) for n in shape)
            eps[sl] += gg.uniform(0, 1)
            if op['seed'] % 2:
                sim.eps = eps.copy()
            else:
                sim.eps[sl] = eps[sl]
            ctx.log('edit', sig(eps))
            ctx.fault('permittivity edited between runs')
            continue
        wl = 1.55 if op['wl'] is None else op['wl']
        ref = RefPorts(size, D, eps, ports, wl, pml=pml, factor=op['factor'])
        src = [tuple(s) for s in op['src'] if s[0] in ports] or [('a0', 0)]
        if op['form'] == 'name' and len(src) == 1:
            src = [(src[0][0], 0)]
        meas = [(n, 0) for n in ports] if op['meas'] is None else [tuple(m) for m in op['meas'] if m[0] in ports] or [('b0', 0)]
        guided = True
        for lst in (src, meas):
            for n in {n for n, _ in lst}:
                num = max(m for nn, m in lst if nn == n) + 1
                guided &= len(ref.modes(n, num).betas) >= num
        if not guided:
            continue
        # where to start
        gg = nprng(op['seed'])
        start = None
        rf = RefFDTD(size, D, eps, pml)
        if op['start'] == 'last' and last is not None:
            start = device(sim, last[0], jax)
            rf.load(last[1])
        elif op['start'] == 'kick':
            z = host(sim.zero_state)
            z[0] = gg.standard_normal(z[0].shape) + 1j * gg.standard_normal(z[0].shape)
            z[1] = gg.standard_normal(z[1].shape) + 1j * gg.standard_normal(z[1].shape)
            start = device(sim, z, jax)
            rf.e, rf.h = z[0].copy(), z[1].copy()
        start_copy = None if start is None else host(start)
        f = op.get('fault')
        hit = None
        if f:
            exc = EXC[f['exc']]
            it = Interrupter(f['line'] if f['kind'] == 'line' else None, exc)
            if f['kind'] == 'eigs':
                S.eigs_faults = [{'kind': 'raise', 'exc': f['exc']}]
            try:
                if f['kind'] == 'line':
                    with it:
                        the_run(op, start, True)
                else:
                    the_run(op, start, True)
            except exc as e:
                hit = f['kind']
                ctx.fault({'pbar': 'progress bar fails', 'viz': 'visualization pipe fails', 'eigs': 'mode solver fails'}.get(
                    f['kind'], 'interrupt' if exc is KeyboardInterrupt else 'failing allocation or call'))
            S.eigs_faults = []
            if start is not None:
                for (n, x), (_, y) in zip(leaves(host(start)), leaves(start_copy)):
                    ctx.same(x, y, 'initial-state-changed', f'after the failed run: {n}')
            ctx.same(sim.eps, eps, 'eps-changed', 'after the failed run')
        src2, _, flux, st, log = the_run({**op, 'fault': None}, start, True)
        msg = f'run {i} of {op["n"]} steps at {wl} from {src} ({"TM" if op["tm"] else "TE"})' + (f' after {hit}' if hit else '')
        if start is not None:
            for (n, x), (_, y) in zip(leaves(host(start)), leaves(start_copy)):
                ctx.same(x, y, 'initial-state-changed', f'{msg}: {n}')
        ctx.same(sim.eps, eps, 'eps-changed', msg)
        ctx.check(len(flux) == op['n'] + 1, 'flux-length', lambda: f'{msg}: {len(flux)} measurements')
        # observers saw every step (the interval applies to the pipes)
        if op['pbar'] == 'gen':
            ctx.check([x for x in log if x[0] == 'pbar'] == [('pbar', j) for j in range(op['n'])], 'progress', msg)
        frames = {}
        if op['viz']:
            want = len(range(0, op['n'], op['interval']))
            for key in planes(op):
                for nm in ('eps', 'field', 'power'):
                    frames[key, nm] = got = [x for n, x in log if n == (key, nm)]
                    ctx.check(len(got) == want, 'frames', lambda: f'{msg}: {len(got)} {nm} frames, expected {want}')
        # the modes, adopted up to their phase, which the documented convention fixes
        sources = sim.port_modes(src, profile_size_factor=op['factor'], wavelength=wl)
        measures = sim.port_modes(meas, profile_size_factor=op['factor'], wavelength=wl)
        refm = RefPorts(size, D, eps, ports, wl, pml=pml, factor=op['factor'])
        sure = True
        for r, lst, libs in ((ref, src, sources), (refm, meas, measures)):
            for n in {n for n, _ in lst}:
                num = max(m for nn, m in lst if nn == n) + 1
                rm = r.modes(n, num)
                ctx.close(libs[n].io.betas, rm.betas, 'wrong-modes', tol=1e-6, msg=f'{msg} betas of {n}')
                for k in range(num):
                    v = np.asarray(libs[n].io.modes[k])
                    fvec = v[:rm.c.shape[0]]
                    ctx.check(backward_error(rm.c, fvec, rm.betas[k] ** 2 * fvec) < 2e-6, 'wrong-modes', f'{msg} {n} {k}')
                    if num > 1 and np.min(np.abs(np.diff(rm.betas))) < 1e-2 or abs(v[0]) < 1e-4:
                        sure = False
                    rm.modes[k] = v
        num_s = {n: max(m for nn, m in src if nn == n) + 1 for n, _ in src}
        profiles = []
        for n, m in src:
            r, _ = ref.region(n)
            rm = ref.modes(n, num_s[n])
            comp_args = [ref.profile(n, m, num_s[n], use_h) if op['tm'] else te_profile(ref, n, m, num_s[n], use_h)
                         for use_h in (False, True)]
            profiles.append((comp_args, (slice(None),) + r))
        dt = rf.dt

        def drive(step):
            ph = np.exp(2j * np.pi / wl * step * dt)
            out = []
            for (pe, ph_), region in profiles:
                out.append((pe, ph_, region, ph))
            return out
        want_flux = [refm.measure((rf.e, rf.h), meas, op['tm'])]
        fields = [rf.state()]
        for step in range(op['n']):
            h_before = rf.h.copy()
            step_full(rf, drive(step))
            want_flux.append(refm.measure((rf.e, (h_before + rf.h) / 2), meas, op['tm']))
            ctx.steps += 1
            ctx.sim_time += dt
            if frames and step % op['interval'] == 0 and sure:
                for key in planes(op):
                    check_frames(ctx, [frames[key, nm][step // op['interval']] for nm in ('eps', 'field', 'power')], key, op, ports,
                                 sim.spacing, eps, rf, f'{msg}: frames of step {step} at {key}')
        hs = host(st)
        scale = max(1e-9, np.max(np.abs(rf.e)), np.max(np.abs(rf.h)))
        if sure:
            ctx.close(hs[0], rf.e, 'wrong-fields', tol=1e-6, scale=scale, msg=msg + ' e')
            ctx.close(hs[1], rf.h, 'wrong-fields', tol=1e-6, scale=scale, msg=msg + ' h')
            fs = max(1e-9, max(np.max(np.abs(x)) for x in want_flux))
            for j, (a, b) in enumerate(zip(flux, want_flux)):
                ctx.close(np.asarray(a), b, 'wrong-flux', tol=1e-5, scale=fs, msg=f'{msg} measurement {j}')
        # the same run, not watched, measuring other ports
        if op['seed'] % 3 == 0:
            plain = {**op, 'meas': None if op['meas'] else [['a0', 0]], 'fault': None}
            _, _, flux2, st2, _ = the_run(plain, start, False)
            for (n, x), (_, y) in zip(leaves(host(st2)), leaves(hs)):
                ctx.close(x, y, 'depends-on-observation', tol=1e-12, scale=scale, msg=f'{msg} {n}')
            ctx.fault('rerun unobserved')
        if op['n'] > 1 and op['seed'] % 3 == 1:
            short = {**op, 'n': int(gg.randint(0, op['n'])), 'fault': None}
            _, _, flux2, st2, _ = the_run(short, start, False)
            ctx.check(len(flux2) == short['n'] + 1, 'flux-length', msg)
            for j, (a, b) in enumerate(zip(flux2, flux)):
                ctx.close(np.asarray(a), np.asarray(b), 'not-a-prefix', tol=1e-10, scale=max(1e-9, np.max(np.abs(np.asarray(flux)))),
                          msg=f'{msg} measurement {j} of the shorter run')
        if sure:
            last = (hs, rf.state())
        ctx.state(op['pbar'], op['viz'], op['src'], op['meas'] is None, op['start'], cfg['pml'], jax, hit)
        ctx.log('run', op['n'], op['wl'], hit, sig(hs[0], 3), len(log))


def check_frames(ctx, got, key, op, ports, spacing, eps, rf, msg):
    """Frames show the permittivity and, up to a factor, the real part and the power of a field component in a plane."""
    f = (rf.h if op['viz_h'] else rf.e)[op['axis']]
    if eps.ndim == 3:
        name, ax = key if isinstance(key, tuple) else (key, 2)
        x, y, _, _, z, _ = ports[name]
        i = int(np.around((x, y, z)[ax] / spacing[ax]))
        f, eps = np.take(f, i, ax), np.take(eps, i, ax)
    else:
        f = f[..., 0]
    if np.ptp(eps):
        ctx.close(got[0].squeeze(), (eps.T - eps.min()) / np.ptp(eps), 'frames', tol=1e-9, scale=1, msg=msg + ' (permittivity)')
    if np.abs(f).max() < 1e-6 * max(np.abs(rf.e).max(), np.abs(rf.h).max()) or np.abs(f).max() < 1e-9:
        return
    for x, want, nm in ((got[1], f.real.T, 'field'), (got[2], np.abs(f.T) ** 2, 'power')):
        x = x.squeeze()
        ctx.check(x.shape == want.shape, 'frames', lambda: f'{msg} ({nm}): shape {x.shape}')
        top = np.abs(want).max()
        if top < 1e-6 * np.abs(f).max() ** (1 + (nm == 'power')):
            continue
        c = x.flat[np.argmax(np.abs(want))] / want.flat[np.argmax(np.abs(want))]
        ctx.check(np.isfinite(c) and c != 0, 'frames', f'{msg} ({nm}): nothing to see')
        ctx.close(x / c, want, 'frames', tol=1e-5, scale=top, msg=f'{msg} ({nm})')


def te_profile(ref, name, m, num, use_h):
    """As RefPorts.profile, for the TE mode of a 2D cross section."""
    modes = ref.modes(name, num)
    f = modes.h(m, False) if use_h else modes.e(m, False)
    if modes.nd == 2:
        f = modes.h(m) if use_h else modes.e(m)
    _, ax = ref.region(name)
    comp = {0: (2, 0, 1), 1: (0, 2, 1), 2: (0, 1, 2)}[ax]
    sign = {0: (1, -1, 1), 1: (1, 1, 1), 2: (1, 1, -1)}[ax]
    return np.stack([s * f[c] for s, c in zip(sign, comp)]).transpose((0,) + tuple(1 + c for c in comp))


def step_full(rf, drives):
    """A step of the reference with sources given on whole regions (not squeezed)."""
    g = rf.grid
    et = g.eps_t()
    rf.e = rf.e + rf._curl(rf.h, g.bwd, rf.psi_e, 1) / et * rf.dt
    for pe, _, region, ph in drives:
        rf.e[region] -= pe.reshape(rf.e[region].shape) * ph / et[region] * rf.dt
    rf.h = rf.h - rf._curl(rf.e, g.fwd, rf.psi_h, 0) * rf.dt
    for _, phh, region, ph in drives:
        rf.h[region] -= phh.reshape(rf.h[region].shape) * ph * rf.dt
