"""C16: meshes are programmed by their nullification basis from any state, and corrected for their errors."""
import numpy as np

from ..core import nprng, sig
from .meshsim import Nodes, draw_errors, draw_mesh, make_mesh, rand_params

ID = 'C16'
TITLE = 'Programming by the null basis reproduces the mesh from any state'
LEVEL = 'fault_enumeration'
RUNS = {'quick': 1200, 'thorough': 40000}
TIME_UNIT = 'columns programmed'
NOTE = 'Seeded search over architectures, targets, fabrication errors, starting states and interrupted programming; not exhaustive.'
RULE = ('a target mesh and 1-2 devices of its architecture with their own coupler errors and phases, and 2-6 operations: '
        'programming, programming interrupted at a drawn line, drift of phases, new targets, new states of the random generator.')
STATE = 'hash of (architecture, style, errors, last two operations)'
REAL = ['simphox.circuit.forward', 'simphox.circuit.vector', 'simphox.circuit.matrix', 'simphox.circuit.rectangular']
STUB = ['global NumPy random state (seeded)']
ASSUMES = ['no losses', 'a device is judged when each of its nodes can reach the split the target asks of it',
           'phase styles top, bottom and differential', 'the basis is in single precision (tolerance 3e-3)']
TOL = 3e-3
PROPERTY = {
    'statement': 'The nullification basis of a mesh has a vector per column, which leaves its mesh after that column only at '
                 'the bottom outputs of the nodes of the column. A device of the same architecture with other coupler errors and in '
                 'any state (random, drifted, programmed for another target, or programmed incompletely because of an '
                 'interruption) has the matrix of the mesh, up to output phases, after program_by_null_basis, as long as '
                 'its nodes can reach their splits; repeating it changes nothing, the result does not depend on the state '
                 'before, and the basis, the mesh it is from, the output phases and other devices are left as they were.',
    'quantifier': {'over': ['inputs', 'configurations', 'crash_points', 'histories'],
                   'text': 'all architectures, targets, errors, states of the device and points of interruption'},
    'why_tests_cant': 'Tests program one ideal mesh; errors of unequal couplers, leftovers of an earlier program and '
                      'interrupted programming never occur.',
    'anchors': {
        'files': ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py'],
        'state': [{'name': 'phases of the device', 'meaning': 'overwritten column by column', 'where': 'simphox/circuit/forward.py program_by_null_basis'}],
        'mechanism': [{'name': 'basis', 'where': 'simphox/circuit/forward.py nullification_basis'},
                      {'name': 'nullification', 'where': 'simphox/circuit/forward.py parallel_nullify'}],
        'observe_at': ['nullification_basis, program_by_null_basis, matrix'],
        'hook_needed': None},
}


def setup():
    import simphox.circuit, simphox.circuit.vector  # noqa


def gen(rng, tier):
    c = draw_mesh(rng, styles=['top', 'top', 'bottom', 'differential'])
    c['loss'] = 0
    c['errors'] = rng.choice(['none', 'none', c['errors']])
    devs = [{'errors': rng.choice(['none', 'equal', 'unequal', 'unequal']), 'std': rng.choice([.01, .03, .06]), 'seed': rng.seed32()}
            for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    for _ in range(rng.randrange(2, 6)):
        ops.append({'op': rng.weighted([('program', 4), ('abort', 3), ('drift', 2), ('target', 1), ('state', 1)]), 'dev': rng.randrange(len(devs)),
                    'line': rng.randrange(2, 150), 'seed': rng.seed32(), 'special': rng.chance(.15), 'keep': rng.chance(.5)})
    ops.append({**ops[0], 'op': 'program'})
    return {'config': {'mesh': c, 'devs': devs}, 'ops': ops}


def run(plan, ctx):
    from ..seams import Interrupter
    c = plan['config']['mesh']
    g = nprng(c['seed'] + 5)
    target = make_mesh(c)
    target, _, _ = draw_errors(g, target, c['errors'], .05, 0)
    if c['kind'] not in ('triangular', 'tree_cascade', 'rectangular') or c['errors'] != 'none':
        target.params = rand_params(g, target)
    devices = []
    for d in plan['config']['devs']:
        gd = nprng(d['seed'])
        m = make_mesh(c)
        m, _, _ = draw_errors(gd, m, d['errors'], d['std'], 0)
        if d['errors'] == 'none':
            m = m.add_error_mean(0, 0)
        m.params = rand_params(gd, m)
        devices.append(m)
    hist = []

    def basis_of():
        keep = [x.copy() for x in target.params]
        basis = np.asarray(target.nullification_basis)
        for a, b in zip(target.params, keep):
            ctx.same(a, b, 'target-changed', 'parameters of the target by its basis')
        ref = Nodes(target)
        p = target.params
        ctx.check(basis.shape == (len(ref.columns), target.n), 'wrong-basis', lambda: f'basis of shape {basis.shape}')
        u = np.eye(target.n, dtype=complex)
        for col, w in zip(ref.columns, basis):
            u = ref.column(col, p) @ u
            out = np.abs(u @ w)
            bottoms = [nd[4] for nd in ref.nodes if nd[0] == col]
            want = np.zeros(target.n)
            want[bottoms] = 1
            ctx.close(out, want, 'wrong-basis', tol=1e-5, scale=1, msg=f'{c["kind"]} {c["style"]} n={target.n}: light of the basis after column {col}')
        return basis, ref.matrix(p), ref

    basis, mat, tref = basis_of()

    def reachable(dev):
        ref = Nodes(dev)
        for nd, td in zip(ref.nodes, tref.nodes):
            s4 = tref.stages(td, *target.params[:2])
            b = s4[3] @ s4[2] @ s4[1] @ s4[0]
            s = abs(b[1, 0]) ** 2
            e = np.array(nd[5]) + np.pi / 4
            cs, sc = np.cos(e[1]) * np.sin(e[0]), np.sin(e[1]) * np.cos(e[0])
            if not ((cs - sc) ** 2 + 2e-3 < s < (cs + sc) ** 2 - 2e-3) and not (nd[5] == td[5] == (0., 0.)):
                return False
        return True

    done = {}
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        k, j = op['op'], op['dev']
        dev = devices[j]
        g = nprng(op['seed'])
        msg = f'{c["kind"]} {c["style"]} n={target.n}, errors {c["errors"]}/{plan["config"]["devs"][j]["errors"]}, after {hist}'
        others = [[x.copy() for x in m.params] for m in devices]
        bk = basis.copy()
        if k == 'drift':
            t, p, q = dev.params
            size = 10 ** g.uniform(-3.5, 0)
            sel = g.uniform(size=t.size) < .4
            t[sel] += g.normal(0, size, sel.sum())
            p[~sel] += g.normal(0, size, (~sel).sum())
            dev.params = t, p, q
            others[j] = [x.copy() for x in dev.params]
        elif k == 'target':
            target.params = rand_params(g, target, op['special'])
            basis, mat, tref = basis_of()
            bk, done = basis.copy(), {}
        elif k == 'state':
            np.random.seed(op['seed'] % 2 ** 32)
        elif k == 'abort':
            it = Interrupter(op['line'], KeyboardInterrupt)
            try:
                with it:
                    dev.program_by_null_basis(basis)
            except KeyboardInterrupt:
                ctx.fault('interrupt')
        else:
            dev.program_by_null_basis(basis)
            ctx.sim_time += len(basis)
            if reachable(dev):
                got = Nodes(dev).matrix(dev.params)
                ctx.close(dev.matrix(), got, 'wrong-matrix', tol=1e-5, scale=1, msg=f'{msg}: matrix')
                d = np.einsum('ij,ij->i', got, mat.conj())   # output phases
                ctx.close(np.abs(d), np.ones(len(d)), 'wrong-matrix', tol=TOL, scale=1, msg=f'{msg}: rows of the programmed matrix')
                ctx.close(got, (d / np.abs(d))[:, None] * mat, 'wrong-matrix', tol=TOL, scale=1, msg=f'{msg}: programmed matrix')
                ctx.probe('devices programmed')
            else:
                ctx.probe('split out of reach')
            split = []
            for td in tref.nodes:
                b = tref.stages(td, *target.params[:2])
                split.append(abs((b[3] @ b[2] @ b[1] @ b[0])[1, 0]) ** 2)
            well = min(split) > 1e-4 and max(split) < 1 - 1e-4   # else a phase is not determined
            ph = [np.exp(1j * x) for x in dev.params[:2]]
            if j in done and well:
                for a, b in zip(ph, done[j]):
                    ctx.close(a, b, 'depends-on-history', tol=1e-6, scale=1, msg=f'{msg}: phases programmed from another state')
            done[j] = ph
        for m, ps in zip(devices, others):
            if m is not dev:
                for a, b in zip(m.params, ps):
                    ctx.same(a, b, 'device-changed', f'{msg}: phases of another device')
        if k in ('program', 'abort'):
            ctx.same(dev.params[2], others[j][2], 'device-changed', f'{msg}: output phases')
            ctx.same(basis, bk, 'basis-changed', msg)
            ctx.close(Nodes(target).matrix(target.params), mat, 'target-changed', tol=1e-12, scale=1, msg=msg)
        hist.append(k)
        ctx.state(c['kind'], c['style'], c['errors'], hist[-2:])
        ctx.log(k, sig(dev.params[0], 4))
