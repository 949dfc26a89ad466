"""C13: optimizations follow their objective, whatever is recorded or watched."""
import numpy as np

from ..core import nprng, sig
from .optsim import (Bar, DS, METRICS, PORTS, Pipe, REGION, RefSim, SHAPE, SIZE, base_eps, draw_problems, draw_run, draw_sims,
                     metric_values, reference, transform, weights_of)

ID = 'C13'
TITLE = 'Optimizations follow the objective and record it, however they are observed'
LEVEL = 'exploration'
RUNS = {'quick': 40, 'thorough': 4000}
TIME_UNIT = 'iterations of the optimizer'
NOTE = 'Seeded search over problem lists, observers, record intervals and orders; not exhaustive.'
RULE = ('1-2 simulations, 1-3 problems (with a simulation, without one, without a source; shared simulations, equal '
        'names), and an optimization with drawn length, step size, record intervals, progress bar and visualization, '
        'then the same again with other observers and the problems in another order.')
STATE = 'hash of (kinds of problems, costs, intervals, observers)'
REAL = ['simphox.opt', 'simphox.fdfd', 'simphox.sim', 'simphox.primitives', 'simphox.mkl', 'simphox.mode', 'JAX', 'Intel MKL Pardiso']
STUB = ['progress bar and visualization pipes (recording stand-ins)', 'ARPACK start vector (seeded)']
ASSUMES = ['2D TM simulations', 'problems that share a simulation share the transform (its permittivity is recorded once)',
           'Adam with the default moments of jax.example_libraries']
PROPERTY = {
    'statement': 'Every iteration of opt_run evaluates the mean of the costs C(S(T(rho))) (C(T(rho)) without simulation or '
                 'source) of all problems at the current parameters and makes the Adam update for its gradient: the costs '
                 'and final parameters are those of this iteration, the simulations end with T(final parameters) as '
                 'permittivity, and the recorded metrics, permittivities and fields belong to the problem and the '
                 'iteration they are labelled with. Neither progress bars, visualization, record intervals nor the order '
                 'of the problems change the costs and parameters, and the initial parameters are left untouched.',
    'quantifier': {'over': ['inputs', 'configurations', 'schedules', 'histories'],
                   'text': 'all lists of problems, costs, transforms, sources, lengths, record intervals and observers'},
    'why_tests_cant': 'No test runs an optimization; off-by-one iterations and mislabelled records give plausible '
                      'results that only an independent optimization of the same objective contradicts.',
    'anchors': {
        'files': ['simphox/opt.py', 'simphox/sim.py', 'simphox/fdfd.py', 'simphox/primitives.py'],
        'state': [{'name': 'optimizer state and history', 'meaning': 'parameters, moments, records', 'where': 'simphox/opt.py opt_run'}],
        'mechanism': [{'name': 'loop', 'where': 'simphox/opt.py opt_run'}, {'name': 'problems', 'where': 'simphox/opt.py OptProblem'}],
        'observe_at': ['opt_run, OptRecord, sim.eps'],
        'hook_needed': None},
}


def setup():
    import simphox.opt, simphox.fdfd, simphox.mkl  # noqa


def gen(rng, tier):
    sims = draw_sims(rng)
    problems = draw_problems(rng, sims)
    ops = [{'op': 'run', **draw_run(rng, problems, False), 'order': list(range(len(problems)))}]
    for _ in range(rng.choice([0, 1, 1])):
        o = {**draw_run(rng, problems, False), 'op': 'run', 'order': rng.sample(range(len(problems)), len(problems)),
             'seed': ops[0]['seed'], 'iters': rng.choice([ops[0]['iters'], ops[0]['iters'], rng.randrange(1, 5)])}
        ops.append(o)
    return {'config': {'sims': sims, 'problems': problems}, 'ops': ops}


class Session:
    """Simulations, problems and references of a plan."""

    def __init__(self, plan, ctx):
        import jax.numpy as jnp
        from simphox.fdfd import FDFD
        from simphox.grid import Port
        from simphox.opt import OptProblem
        from ..seams import S
        S.eigs_seed = 13
        self.ctx, self.S = ctx, S
        self.cfg = plan['config']
        self.problems = self.cfg['problems']
        self.rsims = [RefSim(c) for c in self.cfg['sims']]
        self.ok = all(r.guided() for r in self.rsims)
        if not self.ok:
            return
        self.bases = [r.eps0.copy() for r in self.rsims]
        self.sims = []
        for c, r in zip(self.cfg['sims'], self.rsims):
            s = FDFD(SIZE, .1, eps=r.eps0.copy(), wavelength=c['wl'], name=c['name'])
            s.port = {n: Port(*PORTS[n]) for n in c['ports']}
            r.adopt(s)
            r.build()
            self.sims.append(s)
        self.hooks = {'metrics': None, 'cost': None}
        self.ops = [self.problem(p, jnp, OptProblem) for p in self.problems]

    def problem(self, p, jnp, OptProblem):
        sim = self.sims[p['sim']]
        tf = transform(p['tf'], self.bases[p['sim']], jnp)
        from .optsim import cost_of
        inner = cost_of(p, self.rsims[p['sim']].names, jnp)
        if p['kind'] == 'sim' and p['cost'] == 'fidelity':
            inner = sim.fidelity({n: (1, .6)[i] for i, n in enumerate(p['target'])}, insertion_weight=p['insertion'])

        def cost(x):
            if self.hooks['cost']:
                self.hooks['cost']()
            return inner(x)

        def metrics(sp):
            if self.hooks['metrics']:
                self.hooks['metrics']()
            names = [str(v) for v in sp.coords['port'].values]
            self.ctx.check(names == self.rsims[p['sim']].names, 'mislabelled', lambda: f'metrics of ports {names}')
            return metric_values(p, sp)
        if p['kind'] == 'plain':
            return OptProblem(tf, cost, None, None)
        if p['kind'] == 'nosource':
            return OptProblem(tf, cost, sim, None)
        return OptProblem(tf, cost, sim, p['source'], metrics if p['metrics'] else None)

    def start(self, op):
        return nprng(op['seed']).uniform(-.5, .5, DS)

    def go(self, op, pipe_hook=None, bar_hook=None):
        """One call of opt_run. Returns (record, log)."""
        from simphox.opt import OptViz, opt_run
        order = op['order']
        probs = [self.ops[i] for i in order]
        log = []
        kw = {}
        if op['pbar'] or bar_hook:
            bar = Bar
            kw['pbar'] = (lambda it: Bar(it, log, bar_hook)) if op['pbar'] != 'gen' else (lambda it: iter(Bar(it, log, bar_hook)))
        sim_idx = [i for i in order if self.problems[i]['kind'] == 'sim']
        names = [self.sims[self.problems[i]['sim']].name for i in sim_idx]
        all_have = all(self.problems[i]['metrics'] == 'all' for i in sim_idx)
        if op['viz'] and sim_idx and len(set(names)) == len(names) and (all_have or not op['metric']):
            kw['viz'] = OptViz(cost_dmap=None, simulations_panels={}, costs_pipe=Pipe(log, 'costs', pipe_hook),
                               simulations_pipes={n: tuple(Pipe(log, f'{n}/{q}', pipe_hook) for q in ('eps', 'field', 'power'))
                                                  for n in names},
                               metric_config={'first': METRICS[:2], 'second': METRICS[2:]}, metrics_panels={},
                               metrics_pipes={n: {t: Pipe(log, f'{n}/{t}', pipe_hook) for t in ('first', 'second')} for n in names})
            kw['viz_interval'] = op['viz']
        for k, v in (('metric', 'metric_interval'), ('eps', 'eps_interval'), ('field', 'field_interval')):
            if op[k]:
                kw[v] = op[k]
        init = self.start(op)
        keep = init.copy()
        arg = probs[0] if len(probs) == 1 and op['single'] else probs
        rec = opt_run(arg, init, op['iters'], step_size=op['step'], **kw)
        self.ctx.same(init, keep, 'initial-parameters-changed', 'init_params')
        return rec, log, 'viz' in kw

    def check_run(self, op, rec, log, viz, msg):
        ctx = self.ctx
        problems = [self.problems[i] for i in op['order']]
        hist, final, tfs, sound = reference(problems, self.rsims, self.bases, self.start(op), op['iters'], op['step'])
        n = op['iters']
        ctx.sim_time += n
        costs = np.asarray(rec.costs)
        ctx.check(costs.shape == (n,), 'wrong-costs', lambda: f'{msg}: costs of shape {costs.shape}')
        ctx.close(costs[0], hist[0][1], 'wrong-costs', tol=1e-7, scale=max(.1, abs(hist[0][1])), msg=f'{msg}: first cost')
        if not sound:
            ctx.probe('runs with unpredictable entries')
            return
        scale = max(.1, max(abs(h[1]) for h in hist))
        for i in range(n):
            ctx.close(costs[i], hist[i][1], 'wrong-costs', tol=1e-6, scale=scale, msg=f'{msg}: cost of iteration {i}')
        ctx.close(np.asarray(rec.params), final, 'wrong-parameters', tol=1e-5, scale=max(1., op['step'] * n), msg=f'{msg}: parameters')
        for p, tf in zip(problems, tfs):
            if p['kind'] != 'plain':
                ctx.close(np.asarray(self.sims[p['sim']].eps), np.asarray(tf(np.asarray(rec.params))), 'wrong-final-eps', tol=1e-9,
                          msg=f'{msg}: permittivity at the end')
        sidx = [i for i, p in enumerate(problems) if p['kind'] == 'sim']
        names = [self.sims[problems[i]['sim']].name for i in sidx]
        tol = 1e-5
        if op['metric'] and sidx and any(problems[i]['metrics'] for i in sidx):
            ctx.check(list(map(str, rec.metrics.coords['name'].values)) == names, 'mislabelled', f'{msg}: names of metrics')
            its = list(range(0, n, op['metric']))
            ctx.check(list(rec.metrics.coords['iteration'].values) == its, 'mislabelled', f'{msg}: iterations of metrics')
            ctx.check(rec.metrics.shape == (len(sidx), rec.metrics.coords['metric'].size, len(its)), 'mislabelled', msg)
            have = set().union(*[set(metric_values(problems[i], np.ones(2))) for i in sidx if problems[i]['metrics']])
            ctx.check(have <= set(map(str, rec.metrics.coords['metric'].values)), 'mislabelled', f'{msg}: names of metrics')
            for a, i in enumerate(sidx):
                for k in set(map(str, rec.metrics.coords['metric'].values)) - set(
                        metric_values(problems[i], np.ones(2)) if problems[i]['metrics'] else ()):
                    got = rec.metrics.values[a][[str(x) for x in rec.metrics.coords['metric'].values].index(k)]
                    ctx.check(bool(np.all(np.isnan(np.asarray(got, float)))), 'wrong-metric', f'{msg}: {k} of problem {i}, which has no such metric')
                if not problems[i]['metrics']:
                    continue
                for b, it in enumerate(its):
                    want = metric_values(problems[i], hist[it][2][i][1][0])
                    for k, v in want.items():
                        got = float(rec.metrics.values[a][[str(x) for x in rec.metrics.coords['metric'].values].index(k)][b])
                        ctx.close(got, v, 'wrong-metric', tol=tol, scale=max(.1, v), msg=f'{msg}: {k} of problem {i} at iteration {it}')
        for what, interval in (('eps', op['eps']), ('fields', op['field'])):
            if not interval or not sidx:
                continue
            r = getattr(rec, what)
            its = list(range(0, n, interval))
            ctx.check(list(r.coords['iteration'].values) == its and list(map(str, r.coords['name'].values)) == names and
                      r.shape == (len(sidx), len(its)) + SHAPE, 'mislabelled', lambda: f'{msg}: labels of {what} {r.shape}')
            for a, i in enumerate(sidx):
                for b, it in enumerate(its):
                    want = hist[it][2][i][0] if what == 'eps' else hist[it][2][i][1][1][1][2].squeeze()
                    ctx.close(np.asarray(r.values[a][b]), want, f'wrong-{what}', tol=tol,
                              msg=f'{msg}: {what} of problem {i} at iteration {it}')
        if op['pbar']:
            ctx.check([x[1] for x in log if x[0] == 'pbar'] == list(range(n)), 'progress', msg)
        if viz:
            got = [x[1] for x in log if x[0] == 'costs']
            ctx.check(len(got) == n and all(len(x) == j + 1 for j, x in enumerate(got)), 'frames', f'{msg}: costs pipe')
            ctx.close(got[-1], costs, 'frames', tol=1e-9, msg=f'{msg}: costs pipe')
            frames = list(range(0, n, op['viz']))
            for a, i in enumerate(sidx):
                es = [x[1] for x in log if x[0] == f'{names[a]}/eps']
                ctx.check(len(es) == len(frames), 'frames', f'{msg}: {len(es)} frames')
                for x, it in zip(es, frames):
                    e = hist[it][2][i][0]
                    ctx.close(x, ((e - e.min()) / (e.max() - e.min())).T, 'frames', tol=tol, msg=f'{msg}: frame {it}')
        ctx.state([p['kind'] for p in problems], [p['cost'] for p in problems], op['metric'], op['eps'], op['field'], op['pbar'], viz)


def run(plan, ctx):
    s = Session(plan, ctx)
    if not s.ok:
        ctx.log('no guided mode')
        return
    for i, op in enumerate(plan['ops']):
        ctx.op_index = i
        rec, log, viz = s.go(op)
        if viz or op['pbar']:
            ctx.fault('observed')
        s.check_run(op, rec, log, viz, f'run {i} over {[s.problems[j]["kind"] + "/" + s.problems[j]["cost"] for j in op["order"]]}')
        ctx.log('run', op['iters'], op['order'], sig(rec.costs, 3), sig(rec.params, 3))
    ctx.check(not s.S.misuse, 'native-misuse', lambda: '; '.join(s.S.misuse))
