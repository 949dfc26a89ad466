"""C23: stored and copied objects go on like the originals."""
import copy
import os
import pickle

import numpy as np

from ..core import HarnessError, nprng
from ..seams import S
from . import c21

ID = 'C23'
TITLE = 'Stored, restored and copied objects go on like the originals'
LEVEL = 'exploration'
RUNS = {'quick': 220, 'thorough': 9000}
TIME_UNIT = 'operations'
NOTE = 'Seeded search over histories of edits, computations, storage, crashes and copies; not exhaustive.'
RULE = ('2-4 objects (frequency-domain simulations, mode solvers, mode libraries, cross sections, grids, meshes, nodes, boxes) with 8-30 '
        'edits and computations between which they are stored, restored, copied, sent to another process, branched, or lost in a crash and '
        'restored from the last checkpoint.')
STATE = 'hash of (kind, consecutive operations)'
REAL = ['simphox.grid', 'simphox.fdfd', 'simphox.sim', 'simphox.mode', 'simphox.utils', 'simphox.circuit', 'pickle, copy', 'Intel MKL Pardiso']
STUB = ['storage (bytes in memory, all that survives a crash)', 'other process (a fork made before anything ran)', 'ARPACK start vector (seeded)']
ASSUMES = ['time-domain simulations are not stored as objects (their states are, see C09)']
PROPERTY = {
    'statement': 'Grids, frequency-domain simulations, mode solvers, mode libraries, cross sections, ports, boxes, materials, nodes and meshes can be '
                 'pickled and deep copied at any point of a history of edits and computations. What is restored, in this process or another, or '
                 'after a crash that lost everything but the stored bytes, gives the results of the original at that point, and of '
                 'a new object with the same edits, and follows later edits in the same way. Copies and originals do not '
                 'influence each other, and storing or copying changes nothing, not even later random numbers.',
    'quantifier': {'over': ['histories', 'crash_points', 'inputs'], 'text': 'all histories with storage, copies and crashes at any point'},
    'why_tests_cant': 'No test stores an object. Caches, functions and registries tied to one live object break or mix up only after a '
                      'restart, and only if the history before and after it touches them.',
    'anchors': {
        'files': ['simphox/grid.py', 'simphox/fdfd.py', 'simphox/sim.py', 'simphox/mode.py', 'simphox/utils.py', 'simphox/circuit/forward.py', 'simphox/circuit/coupling.py'],
        'state': [{'name': 'object state', 'meaning': 'attributes, caches and derived values of the objects', 'where': 'simphox/sim.py SimGrid, simphox/circuit/forward.py ForwardMesh'}],
        'mechanism': [{'name': 'pickling and deep copies', 'where': 'attributes of all classes'}],
        'observe_at': ['results of the objects before and after storage'],
        'hook_needed': None},
}


def setup():
    c21.setup()


# ---------------------------------------------------------------- objects: build, edits and computations by plain data

def f_eps(v, shape):
    return c21.structure(nprng(v), shape)


def build(kind, c):
    from simphox.circuit import CouplingNode, rectangular, tree_cascade, triangular, vector_unit
    from simphox.grid import Grid
    from simphox.mode import ModeLibrary, ModeSolver
    from simphox.utils import Box, Material
    np.random.seed(c['v'])
    p = {**c, 'tm': False}
    if kind == 'fdfd':
        return c21.make_fdfd(p, wavelength=c['wl'])[0]
    if kind == 'ports':
        return c21.make_fdfd(p, ports=True, wavelength=c['wl'])[0]
    if kind in ('solver', 'library', 'solver1'):
        if kind == 'solver1':
            eps = nprng(c['v']).uniform(1, 1.1, 30)
            eps[10:20] += 8
            return ModeSolver((1.5,), .05, c['wl'], eps=eps)
        eps = nprng(c['v']).uniform(1, 1.2, (9, 8))
        eps[2:6, 3:6] += 9
        s = ModeSolver((.9, .8), .1, c['wl'], eps=eps)
        return s if kind == 'solver' else ModeLibrary(s, 2)
    if kind == 'section':
        return c21.make_fdfd(p, ports=True, wavelength=c['wl'])[0].modes((.5 + .1 * c['d'], .6, 0), (0, .9, 0), wavelength=c['wl'])
    if kind == 'grid':
        return Grid((.9, .8), .1, eps=1.5)
    if kind == 'mesh':
        return [rectangular, triangular, tree_cascade][c['s']](c21.target(c, 3 + c['d']))
    if kind == 'vector':
        g = nprng(c['v'])
        return vector_unit(g.normal(size=3 + c['d']) + 1j * g.normal(size=3 + c['d']), balanced=bool(c['s']))[0]
    if kind == 'node':
        return CouplingNode(n=3, top=c['s'] % 2, bottom=2, bs_error=.01 * c['d'], loss=(-.1 * c['s'], 0.))
    if kind == 'box':
        return Box((.4, .3), Material('m', eps=2. + c['s']), .1, (.1 * c['s'], .2))
    raise HarnessError(kind)


def edit(kind, o, e):
    """One edit: deterministic, by documented means. Gives the edited object (meshes with other errors are new objects)."""
    g = nprng(e['seed'])
    k = e['k'] % 4
    if kind in ('fdfd', 'ports', 'grid', 'solver'):
        d = o.spacing[:2] * o.shape[:2]
        if k == 0:
            o.set_eps((float(d[0]) * (.4 + .1 * e['x']), float(d[1]) / 2, 0), (float(d[0]) * .4, float(d[1]) * .3, 0), 4. + e['x'])
        elif k == 1:
            o.eps[tuple(int(i) // 2 for i in o.shape)] += .5 + e['x']
        elif k == 2 and kind != 'grid':
            o.eps = o.eps * (1.1 + .1 * e['x'])
        elif kind == 'ports' and k == 3:
            from simphox.grid import Port
            if e['x'] == 0:
                o.port['a0'] = Port(.4, o.size[1] / 2, 180, .3, 0, 0)
            else:
                o.port = {'a0': Port(.3, o.size[1] / 2, 180, .3, 0, 0), 'b0': Port(float(o.size[0]) - .2 - .1 * e['x'], o.size[1] / 2, 0, .3, 0, 0)}
        elif kind == 'solver':
            o.wavelength = [1.2, 1.4, 1.5][e['x']]
        else:
            o.fill(float(d[-1]) * .3, 3. + e['x']) if kind == 'grid' else o.set_eps((float(d[0]) / 2, float(d[1]) / 2, 0), (.2, .2, 0), 7.)
    elif kind == 'solver1':
        if k % 2:
            o.wavelength = [1.2, 1.4, 1.5][e['x']]
        else:
            o.eps[14 + e['x']] += 1.
    elif kind == 'library':
        if k == 0:
            o.solver.eps[3:5, 4] += .5 + e['x']
        elif k == 1:
            o.solver.wavelength = [1.2, 1.3, 1.4][e['x']]
        else:
            o.update_wavelength([1.2, 1.3, 1.4][e['x']])
    elif kind == 'section':
        o.io.update_wavelength([1.2, 1.3, 1.4][e['x']])
    elif kind in ('mesh', 'vector'):
        if k == 0:
            o.params = tuple(g.uniform(0, 6, np.shape(a)) for a in o.params)
        elif k == 1:
            return o.add_error_mean(.01 * (1 + e['x']), -.1 * e['x'])
        elif k == 2:
            o.thetas[e['x'] % o.num_nodes] += .3
        else:
            o.gammas = o.gammas + .1 * (1 + e['x'])
    elif kind == 'node':
        if k % 2:
            o.bs_error = (.01 * e['x'], .02)
        else:
            o.loss = (-.1 * e['x'], -.05)
    elif kind == 'box':
        if k % 2:
            o.translate(.1 * (1 + e['x']), -.1)
        else:
            o.align((.5 + .1 * e['x'], .4))
    return o


def compute(kind, o, c):
    x = c['x']
    if kind in ('fdfd', 'ports'):
        out = [('eps', o.eps), ('averages', o.eps_t), ('spacing', np.concatenate([o.spacing, o.size]))]
        if c['k'] == 0:
            out.append(('fields', o.solve(c21.rnd({'v': x}, *o.shape, 1), tm_2d=bool(x % 2))))
        elif c['k'] == 1:
            out += [('tm', o.mat_hz.toarray()), ('te', o.mat_ez.toarray())]
        elif kind == 'ports':
            if c['k'] == 2:
                pm = o.port_modes()
                out += [(f'beta {n}', np.array(pm[n].io.betas)) for n in sorted(pm)] + [(f'profile {n}', np.abs(pm[n].profile(0))) for n in sorted(pm)]
                out.append(('ports', np.array([[q.x, q.y, q.a, q.w] for _, q in sorted(o.port.items())], float)))
            else:
                out += [('source', np.abs(o.port_source({'b0': 1} if x else {'a0': 1, ('b0', 0): .3}))),
                        ('measured', np.abs(np.asarray(o.get_measure_fn()(c21.rnd({'v': x}, 2, 3, *o.shape, 1)))))]
        else:
            out.append(('e2h', o.e2h(c21.rnd({'v': x}, 3, *o.shape, 1))))
        return out
    if kind in ('solver', 'solver1'):
        b, m = o.solve(1 + x % 2)
        return [('eps', o.eps), ('betas', b), ('mode', np.abs(m[0])), ('operator', o.C.toarray()) if hasattr(o, 'C') else ('wavelength', o.wavelength)]
    if kind in ('library', 'section'):
        io = o if kind == 'library' else o.io
        out = [('betas', io.betas), ('indices', io.ns), ('h', np.abs(io.h(0))), ('e', np.abs(io.e(0))), ('phase', io.phase(2.))]
        return out if kind == 'library' else out + [('profile', np.abs(o.profile(0, use_h=bool(x % 2)))), ('place', np.array([*o.center, *o.size]))]
    if kind == 'grid':
        return [('eps', o.eps), ('mask', o.mask((.4, .4, 0), (.2 + .1 * x, .3, 0)))]
    if kind in ('mesh', 'vector'):
        out = [('powers', np.concatenate([o.pn, o.pnsn]), 1.), ('rails', np.array([*o.top, *o.bottom, *o.node_idxs, *o.column_by_node], float), 1.),
               ('matrix', o.matrix(), 1.), ('errors', o.all_errors, 1.), ('params', np.concatenate([np.ravel(a) for a in o.params]), 6.)]
        if c['k'] == 0:
            out.append(('propagated', o.propagate(c21.rnd({'v': x}, o.n)), 1.))
        elif c['k'] == 1:
            out.append(('backward', o.matrix(back=True), 1.))
        elif c['k'] == 2:
            out.append(('function', np.asarray(o.matrix_fn(use_jax=bool(x % 2))(o.params)), 1.))
        return out
    if kind == 'node':
        return [('matrix', o.mzi_node_matrix(.3 + x, .4), 1.), ('terms', np.array(o.mzi_terms), 1.), ('rails', np.array([o.top, o.bottom, o.n]))]
    if kind == 'box':
        return [('box', np.array([*o.min, *o.max, *o.center, o.eps])), ('mask', o.mask(np.zeros((12, 12))))]


KINDS = ['fdfd', 'ports', 'ports', 'solver', 'solver1', 'library', 'section', 'grid', 'mesh', 'mesh', 'vector', 'node', 'box']
STORE = ['pickle', 'deepcopy', 'branch', 'elsewhere', 'save', 'crash', 'bundle']


def gen(rng, tier):
    objs = [{'kind': rng.choice(KINDS), 'c': {'s': rng.randrange(3), 'd': rng.randrange(3), 'pml': rng.randrange(3), 'v': rng.randrange(1, 4),
                                                'wl': rng.choice([1.2, 1.31, 1.45]), 'x': 0}} for _ in range(rng.randrange(2, 5))]
    if rng.chance(.4):
        objs[1] = {'kind': objs[0]['kind'], 'c': {**objs[0]['c'], **({} if rng.chance(.5) else {'v': 3})}}   # twins
    ops = []
    elsewhere = 0
    for _ in range(rng.randrange(8, 30)):
        k = rng.weighted([('edit', 5), ('compute', 6)] + [(s, 1) for s in STORE])
        if k == 'elsewhere' and elsewhere >= 2:
            k = 'pickle'
        elsewhere += k == 'elsewhere'
        ops.append({'op': k, 'o': rng.randrange(len(objs) + 1), 'k': rng.randrange(4), 'x': rng.randrange(3), 'seed': rng.seed32(), 'protocol': rng.choice([2, 4, 5])})
    return {'config': {'objects': objs}, 'ops': ops}


def walk(plan):
    """What the history means: for every operation the object it uses and that object's edits so far (plain data)."""
    objs = plan['config']['objects']
    live = [{'kind': o['kind'], 'c': o['c'], 'edits': []} for o in objs]
    saved = None
    for i, op in enumerate(plan['ops']):
        if op['op'] in ('save', 'bundle'):
            saved = [{**m, 'edits': list(m['edits'])} for m in live]
            yield i, op, None, None
        elif op['op'] == 'crash':
            if saved is not None:
                live = [{**m, 'edits': list(m['edits'])} for m in saved]
            yield i, op, None, saved is not None
        else:
            n = op['o'] % len(live)
            m = live[n]
            if op['op'] == 'branch':
                if len(live) < 6:
                    live.append({**m, 'edits': list(m['edits'])})
                    yield i, op, n, None
                continue
            yield i, op, n, {**m, 'edits': list(m['edits'])}
            if op['op'] == 'edit':
                m['edits'].append({k: op[k] for k in ('k', 'x', 'seed')})


def plain(out):
    return [(x[0], np.array(x[1]), None if len(x) < 3 else x[2]) for x in out]


def fresh(m, op):
    S.eigs_seed, S.eigs_calls = 5, 0
    o = build(m['kind'], m['c'])
    for e in m['edits']:
        o = edit(m['kind'], o, e)
    return result(m['kind'], o, {'k': op['k'], 'x': op['x']})


def result(kind, o, c):
    """What is computed; None if the solver says that it cannot (rarely, a pivot of a good system is too small for it)."""
    try:
        return plain(compute(kind, o, c))
    except RuntimeError:
        return None


def server(others):
    """A process made before anything ran; restores what it is sent and computes."""
    r0, w0 = os.pipe()
    r1, w1 = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            for fd in [w0, r1, *(fd for s in others for fd in s[1:])]:
                os.close(fd)
            data = b''
            while True:
                x = os.read(r0, 1 << 20)
                if not x:
                    break
                data += x
            if not data:
                os._exit(0)
            try:
                kind, o, c = pickle.loads(data)
                S.eigs_seed, S.eigs_calls = 5, 0
                res = ('ok', result(kind, o, c))
            except BaseException as e:  # noqa
                res = ('error', f'{type(e).__name__}: {str(e)[:300]}')
            data = pickle.dumps(res)
            while data:
                data = data[os.write(w1, data):]
        finally:
            os._exit(0)
    os.close(r0), os.close(w1)
    return pid, w0, r1


def ask(srv, data):
    pid, w, r = srv
    while data:
        data = data[os.write(w, data):]
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 1 << 20)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise HarnessError('the other process gave nothing')
    return pickle.loads(buf)


def run(plan, ctx):
    S.eigs_seed, S.eigs_calls = 5, 0
    servers = []
    try:
        for op in plan['ops']:
            if op['op'] == 'elsewhere':
                servers.append(server(servers))
        simulate(plan, ctx, servers)
    finally:
        for pid, w, r in servers:
            os.close(w), os.close(r), os.waitpid(pid, 0)


def same_random(ctx, before, k):
    """Random numbers that come after the storage are those that come without it."""
    now = np.random.get_state()
    ctx.check(all(np.array_equal(a, b) for a, b in zip(before, now)), 'random', f'{k} draws random numbers')


def simulate(plan, ctx, servers):
    need = [(i, m, op) for i, op, n, m in walk(plan) if op['op'] in ('compute', 'pickle', 'deepcopy', 'elsewhere')]
    r = c21.collect(*c21.alone(need, lambda need, _: ([fresh(m, op) for i, m, op in need], None, None)))
    ctx.check(r[0] == 'ok', 'failed-new', lambda: f'on a new object: {r[1]}')
    ctx.check(sum(out is None for out in r[1]) <= max(3, len(r[1]) // 2), 'failed-new', 'most computations fail on new objects')
    refs = {i: out for (i, m, op), out in zip(need, r[1])}
    live, saved, hist = [build(o['kind'], o['c']) for o in plan['config']['objects']], None, []

    def judge(got, i, op, m, how):
        want = refs[i]
        if want is None:
            return
        msg = f'op {i} {m["kind"]} {how}, after {[h for h in hist[-8:]]}'
        ctx.check(got is not None, 'failed', lambda: f'{msg}: the solver fails, and not with a new object')
        ctx.check([x[0] for x in got] == [x[0] for x in want], 'differs', lambda: f'{msg}: {[x[0] for x in got]}')
        for (name, a, sc), (_, b, _) in zip(got, want):
            ctx.close(a, b, 'differs', tol=1e-6 if sc else 1e-5, scale=sc if sc is not None else max(float(np.abs(b).max()), 1e-12) if b.size else 1, msg=f'{msg}: {name}')

    for i, op, n, m in walk(plan):
        ctx.op_index = i
        ctx.sim_time += 1
        k = op['op']
        rng = np.random.get_state()
        if k in ('save', 'bundle'):
            if k == 'bundle':   # everything in one file
                data = pickle.dumps(live, protocol=op['protocol'])
                saved = ('one', data)
            else:
                saved = ('each', [pickle.dumps(o, protocol=op['protocol']) for o in live])
            same_random(ctx, rng, k)
            ctx.fault('checkpoint')
        elif k == 'crash':
            if m:
                live = None
                live = pickle.loads(saved[1]) if saved[0] == 'one' else [pickle.loads(d) for d in saved[1]]
                same_random(ctx, rng, k)
                ctx.fault('crash')
        elif k == 'branch':
            live.append(copy.deepcopy(live[n]))
            same_random(ctx, rng, k)
            ctx.fault('branch')
        else:
            o = live[n]
            c = {'k': op['k'], 'x': op['x']}
            if k == 'edit':
                live[n] = edit(m['kind'], o, {q: op[q] for q in ('k', 'x', 'seed')})
            elif k == 'compute':
                judge(result(m['kind'], o, c), i, op, m, 'computed')
            elif k == 'elsewhere':
                s = servers.pop(0)
                res = ask(s, pickle.dumps((m['kind'], o, c), protocol=op['protocol']))
                ctx.check(res[0] == 'ok', 'lost', lambda: f'op {i} {m["kind"]} in another process: {res[1]}')
                judge(res[1], i, op, m, 'in another process')
                ctx.fault('other process')
            else:
                live[n] = pickle.loads(pickle.dumps(o, protocol=op['protocol'])) if k == 'pickle' else copy.deepcopy(o)
                same_random(ctx, rng, k)
                ctx.fault('restored' if k == 'pickle' else 'copied')
                if op['x'] == 0:   # the original, too
                    judge(result(m['kind'], o, c), i, op, m, f'original after {k}')
                elif op['x'] == 1:   # overwrite the original: the copy must not care
                    for e in (2, 3, 1, 0):
                        o = edit(m['kind'], o, {'k': e, 'x': op['seed'] % 3, 'seed': e})
                    ctx.fault('original edited')
                judge(result(m['kind'], live[n], c), i, op, m, k)
        hist.append(k if n is None else f'{k} {n}')
        ctx.state(hist[-3:], None if n is None or m is None else m['kind'])
        ctx.log(k, n)
