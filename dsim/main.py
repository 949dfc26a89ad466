"""Runner: plans -> isolated runs (one forked process each) -> verdict, minimised replay file, evidence."""
import argparse
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from .core import Ctx, HarnessError, Rng, Violation, ddmin, derive, dump_json, load_json

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('DSIM_EVIDENCE', os.path.join(ROOT, 'evidence'))
RUN_TIMEOUT = 120.0
MEM_LIMIT = 6 << 30


def load_prop(pid):
    return importlib.import_module(f'dsim.props.{pid.lower()}')


def make_plan(mod, seed, index, tier):
    rng = Rng(derive('plan', mod.ID, seed, index))
    plan = mod.gen(rng, tier)
    plan.update(prop=mod.ID, seed=seed, index=index, tier=tier)
    plan = json.loads(json.dumps(plan, default=lambda o: o.item()))
    return plan


def execute(mod, plan):
    """One run in this process. Returns the result dict."""
    from . import seams
    ctx = Ctx(plan)
    seams.reset(ctx)
    seams.seed_globals(derive('ambient', plan['seed'], plan['index']))
    res = {'status': 'ok'}
    try:
        mod.run(plan, ctx)
    except Violation as v:
        res = {'status': 'violation', 'key': v.key, 'msg': v.msg}
    except HarnessError as e:
        res = {'status': 'harness', 'msg': f'{e}\n{traceback.format_exc()[-2000:]}'}
    except BaseException as e:  # noqa: the code under test raised or returned something that cannot be used
        tb = traceback.extract_tb(e.__traceback__)
        frames = [f for f in tb if f.filename.startswith(seams.REPO + '/')]
        where = f'{os.path.basename(frames[-1].filename)}:{frames[-1].name}' if frames else 'result unusable'
        res = {'status': 'violation', 'key': f'unexpected-{type(e).__name__}',
               'msg': f'[op {ctx.op_index}] unexpected {type(e).__name__} in {where}: {str(e)[:300]}',
               'trace': traceback.format_exc()[-3000:]}
    finally:
        sys.settrace(None)
    res.update(digest=ctx.digest(), events=len(ctx.events), faults=ctx.faults, probes=ctx.probes,
               states=sorted(ctx.states), interleavings=sorted(ctx.interleavings), checks=ctx.checks, steps=ctx.steps,
               sim_time=ctx.sim_time, max_err=ctx.max_err, log=ctx.events[-400:])
    return res


class Pool:
    """Runs plans in forked children, at most `jobs` at a time."""

    def __init__(self, mod, jobs):
        self.mod, self.jobs = mod, jobs

    def _spawn(self, plan):
        r, w = os.pipe()
        sys.stdout.flush(), sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setsid()
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0), os.dup2(devnull, 1)
                if not os.environ.get('DSIM_STDERR'):
                    os.dup2(devnull, 2)
                data = pickle.dumps(execute(self.mod, plan))
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            except BaseException:  # noqa
                code = 9
            finally:
                os._exit(code)
        os.close(w)
        return pid, r

    def _finish(self, pid, buf):
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return {'status': 'crash', 'msg': f'killed by signal {os.WTERMSIG(status)}'}
        try:
            return pickle.loads(bytes(buf))
        except Exception:
            return {'status': 'crash', 'msg': f'exit status {os.WEXITSTATUS(status)} without a result'}

    def map(self, plans, stop=lambda i, r: False, deadline=None, timeout=RUN_TIMEOUT):
        """Yields (index in plans, result); stops launching after stop() or the deadline."""
        active, todo, halted = {}, list(enumerate(plans))[::-1], False
        limit = None
        while active or (todo and not halted):
            while todo and not halted and len(active) < self.jobs:
                if deadline is not None and time.monotonic() > deadline:
                    halted = True
                    break
                i, plan = todo.pop()
                pid, fd = self._spawn(plan() if callable(plan) else plan)
                active[fd] = [i, pid, bytearray(), time.monotonic()]
            if not active:
                break
            ready, _, _ = select.select(list(active), [], [], 1.0)
            for fd in ready:
                i, pid, buf, _ = active[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    buf.extend(chunk)
                    continue
                os.close(fd)
                del active[fd]
                res = self._finish(pid, buf)
                if stop(i, res):
                    halted = True
                    limit = i if limit is None else min(limit, i)
                yield i, res
            now = time.monotonic()
            for fd in list(active):
                i, pid, buf, t0 = active[fd]
                if now - t0 > timeout or (limit is not None and i > limit):
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    del active[fd]
                    if limit is None or i <= limit:
                        yield i, {'status': 'hang', 'msg': f'no progress within {timeout:.0f} s'}

    def one(self, plan, timeout=RUN_TIMEOUT):
        for _, r in self.map([plan], timeout=timeout):
            return r


def settle(mod, plan, res):
    """A crash or hang only counts when it happens again, alone."""
    if res['status'] in ('crash', 'hang'):
        again = Pool(mod, 1).one(plan, timeout=2 * RUN_TIMEOUT)
        if again['status'] in ('crash', 'hang'):
            return {**again, 'status': 'violation', 'key': again['status'],
                    'msg': f'the run {"crashed" if again["status"] == "crash" else "hung"} twice: {again["msg"]}'}
        return again
    return res


def shrink(mod, plan, key, jobs, budget):
    """Minimise the operations, then the schedule, then the faults, keeping the violation class."""
    if key in ('hang',):
        return plan
    deadline = time.monotonic() + budget
    pool = Pool(mod, jobs)

    def same(r):
        return r['status'] == 'violation' and r['key'] == key or r['status'] == 'crash' == key

    def first(plans):
        best = None
        for i, r in pool.map(plans, stop=lambda i, r: same(r), deadline=deadline, timeout=60):
            if same(r):
                best = i if best is None else min(best, i)
        return best

    def with_(p, **kw):
        q = json.loads(json.dumps(p))
        for k, v in kw.items():
            q[k] = v
        return q

    for _ in range(3):
        before = json.dumps(plan)
        ops = ddmin(plan['ops'], lambda cs: first([with_(plan, ops=c) for c in cs]), deadline)
        plan = with_(plan, ops=ops)
        points = plan['config'].get('points')
        if points:
            pts = ddmin(points, lambda cs: first(
                [with_(plan, config={**plan['config'], 'points': c}) for c in cs]), deadline)
            plan = with_(plan, config={**plan['config'], 'points': pts})
        for cands_fn in (getattr(mod, 'simpler', None), _no_faults):
            progress = cands_fn is not None
            while progress and time.monotonic() < deadline:
                cands = cands_fn(plan)
                hit = first(cands) if cands else None
                progress = hit is not None
                if progress:
                    plan = cands[hit]
        if json.dumps(plan) == before or time.monotonic() > deadline:
            break
    return plan


def _no_faults(plan):
    out = []
    for i, op in enumerate(plan['ops']):
        if op.get('fault') is not None:
            q = json.loads(json.dumps(plan))
            q['ops'][i]['fault'] = None
            out.append(q)
    return out


def known_findings():
    """finding: property=<id> key=<violation key> [match=<substring>] <what fails>   (fixed: lines suppress nothing)"""
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                f = dict(w.split('=', 1) for w in line.split() if '=' in w)
                out.append((f.get('property'), f.get('key'), f.get('match', ''), line.strip()))
    return out


def check(args):
    t0 = time.monotonic()
    mod = load_prop(args.prop)
    tier, seed = args.tier, args.seed
    jobs = args.jobs or max(2, min(8, os.cpu_count() or 2))
    n = args.runs or mod.RUNS[tier]
    cap = float(os.environ.get('DSIM_CAP', 600 if tier == 'quick' else 840))
    from . import seams
    try:
        mod.pre_install() if hasattr(mod, 'pre_install') else None
        seams.install()
        mod.setup() if hasattr(mod, 'setup') else None
    except HarnessError:
        raise
    except BaseException as e:  # noqa
        print(f'ERROR: simphox cannot be loaded: {e!r}')
        traceback.print_exc()
        return 2
    plans = [make_plan(mod, seed, i, tier) for i in range(n)]
    known = [k for k in known_findings() if k[0] == mod.ID]
    known_hits, results, bad, harness = {}, {}, None, []
    pool = Pool(mod, jobs)

    def is_known(r):
        for p, key, match, line in known:
            if r.get('key') == key and match in r.get('msg', ''):
                return line
        return None

    def stop(i, r):
        return r['status'] == 'violation' and not is_known(r)

    for i, r in pool.map(plans, stop=stop, deadline=t0 + cap):
        r = settle(mod, plans[i], r)
        results[i] = r
        if r['status'] == 'harness':
            harness.append((i, r))
        elif r['status'] == 'violation':
            line = is_known(r)
            if line:
                known_hits.setdefault(line, i)
            elif bad is None or i < bad:
                bad = i
                if not stop(i, r):
                    break
        elif r['status'] in ('crash', 'hang'):
            harness.append((i, r))
    run_wall = time.monotonic() - t0
    rc, replay, shrunk = 0, None, None
    if bad is not None:
        r = results[bad]
        plan = plans[bad]
        if not args.no_shrink:
            shrunk = shrink(mod, plan, r['key'], jobs, float(os.environ.get('DSIM_SHRINK', 60)))
        else:
            shrunk = plan
        final = settle(mod, shrunk, Pool(mod, 1).one(shrunk))
        if final['status'] != 'violation':
            shrunk, final = plan, r
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        replay = os.path.join(EVID, 'replays', f'{mod.ID}-seed{seed}-run{bad}.json')
        dump_json(replay, {'property': mod.ID, 'title': mod.TITLE, 'key': final['key'], 'violation': final['msg'],
                           'digest': final.get('digest'), 'hashseed': os.environ.get('PYTHONHASHSEED'),
                           'original_ops': len(plan['ops']), 'plan': shrunk, 'log': final.get('log', []),
                           'trace': final.get('trace')})
        print(f'violation in run {bad}: {final["key"]}: {final["msg"]}')
        print(f'minimised {len(plan["ops"])} -> {len(shrunk["ops"])} ops; replay with: bin/check replay {replay}')
        print(f'VIOLATION property={mod.ID} replay={replay}')
        rc = 1
    for line in known_hits:
        print(f'KNOWN-FINDING: property={mod.ID} {line.split(" ", 3)[-1]}')
    if rc == 0 and harness:
        i, r = harness[0]
        print(f'ERROR: {len(harness)} runs failed in the harness; run {i}: {r["msg"]}')
        rc = 2
    if rc == 0 and len(results) < min(n, mod.RUNS['quick']):
        print(f'ERROR: only {len(results)} of {n} runs finished within {cap:.0f} s')
        rc = 2
    evidence(mod, args, plans, results, time.monotonic() - t0, run_wall, jobs, bad, known_hits, replay)
    done = [r for r in results.values() if r['status'] == 'ok']
    print(f'{mod.ID} {tier}: {len(results)} runs ({len(done)} held), {sum(r.get("checks", 0) for r in results.values())}'
          f' checks, {sum(sum(r.get("faults", {}).values()) for r in results.values())} faults, '
          f'{time.monotonic() - t0:.1f} s, max error {max([r.get("max_err", 0) for r in done] or [0]):.2g} of bound')
    return rc


def evidence(mod, args, plans, results, wall, run_wall, jobs, bad, known_hits, replay):
    faults, probes, states, inter, checks, steps, simt = {}, {}, set(), set(), 0, 0, 0.0
    nontrivial = set()
    for i, r in results.items():
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + v
        states.update(r.get('states', ()))
        inter.update(r.get('interleavings', ()))
        checks += r.get('checks', 0)
        steps += r.get('steps', 0)
        simt += r.get('sim_time', 0)
        if r.get('checks', 0) > 0:
            nontrivial.add(r.get('digest'))
    digest = derive(sorted((i, r.get('digest')) for i, r in results.items()))
    samples = []
    for i in sorted(results)[:2]:
        p = plans[i]
        samples.append({'run': i, 'config': p['config'], 'ops': p['ops'][:12], 'ops_total': len(p['ops']),
                        'status': results[i]['status'], 'log_head': results[i].get('log', [])[:12]})
    ev = {
        'property': mod.ID, 'tier': args.tier, 'seed': args.seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(nontrivial),
            'rule': 'one evaluation is one simulated run (its own process), made from VERIF_SEED and the run index: '
                    + mod.RULE + ' Non-trivial: at least one oracle check was decided; distinct: different event logs.',
            'samples': samples,
            'oracle_checks': checks,
            'operations': sum(len(plans[i]['ops']) for i in results),
            'faults_injected': faults,
            'probes': probes,
            'distinct_states': len(states),
            'state_measure': getattr(mod, 'STATE', 'hash of the abstract state after each operation'),
            'distinct_interleavings': len(inter) if inter else None,
            'scheduler_steps': steps,
            'simulated_time': simt,
            'simulated_time_unit': getattr(mod, 'TIME_UNIT', 'operations (the code has no clock here)'),
            'runs_per_hour': round(3600 * len(results) / max(run_wall, 1e-9)),
            'seeds_per_hour': round(3600 * len(results) / max(run_wall, 1e-9)),
            'jobs': jobs,
            'batch_digest': f'{digest:016x}',
            'max_error_over_bound': max([r.get('max_err', 0) for r in results.values() if r['status'] == 'ok'] or [0]),
            'real_components': mod.REAL,
            'stubbed_components': mod.STUB,
            'violating_run': bad, 'replay': replay, 'known_findings': list(known_hits),
        },
        'assumptions': mod.ASSUMES,
        'wall_s': round(wall, 2),
        'violations': int(bad is not None),
    }
    ev['coverage'] = {k: v for k, v in ev['coverage'].items() if v is not None}
    os.makedirs(EVID, exist_ok=True)
    dump_json(os.path.join(EVID, f'{mod.ID}.json'), ev)


def replay(path):
    doc = load_json(path)
    plan = doc['plan']
    if doc.get('hashseed') and doc['hashseed'] != os.environ.get('PYTHONHASHSEED') and not os.environ.get('DSIM_REEXEC'):
        os.environ.update(PYTHONHASHSEED=doc['hashseed'], DSIM_REEXEC='1')
        os.execv(sys.executable, [sys.executable, '-B', '-W', 'ignore', '-m', 'dsim.main', 'replay', path])
    mod = load_prop(plan['prop'])
    from . import seams
    mod.pre_install() if hasattr(mod, 'pre_install') else None
    seams.install()
    mod.setup() if hasattr(mod, 'setup') else None
    r = settle(mod, plan, Pool(mod, 1).one(plan))
    for line in r.get('log', []):
        print('  ', line)
    if r['status'] == 'violation':
        print(f'{r["key"]}: {r["msg"]}')
        print(f'same violation class: {r["key"] == doc["key"]}; same event log: {r.get("digest") == doc.get("digest")}')
        print(f'VIOLATION property={mod.ID} replay={path}')
        return 1
    if r['status'] == 'harness':
        print('ERROR', r['msg'])
        return 2
    print('the violation does not occur on this tree')
    return 0


def digests(args):
    """Event-log digests of the first runs of a property (used by selftest in fresh processes)."""
    mod = load_prop(args.prop)
    from . import seams
    mod.pre_install() if hasattr(mod, 'pre_install') else None
    seams.install()
    mod.setup() if hasattr(mod, 'setup') else None
    plans = [make_plan(mod, args.seed, i, 'quick') for i in range(args.runs or 8)]
    out = {}
    for i, r in Pool(mod, args.jobs or 8).map(plans):
        out[i] = (r['status'], r.get('digest'))
    print(json.dumps([out[i] for i in range(len(plans))]))
    return 0


def selftest(props, runs, seeds):
    """Same seeds, several processes, job counts and hash seeds: the event logs have to be identical."""
    import subprocess
    bad = 0
    for pid in props:
        outs = {}
        for seed in seeds:
            for jobs, hs in ((8, '0'), (3, '0'), (8, '1'), (5, '4242')):
                env = dict(os.environ, PYTHONHASHSEED=hs)
                p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'dsim.main', 'digests', pid, '--seed',
                                    str(seed), '--jobs', str(jobs), '--runs', str(runs)],
                                   env=env, cwd=ROOT, capture_output=True, text=True)
                line = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else p.stderr[-300:]
                outs.setdefault(seed, {})[(jobs, hs)] = line
        same = all(len(set(v.values())) == 1 for v in outs.values())
        bad += not same
        print(f'{pid}: {len(seeds)} seeds x {runs} runs x 4 (jobs, hash seed) settings: '
              f'{"identical event logs" if same else "DIFFERENT"}', flush=True)
        if not same:
            for s, v in outs.items():
                ls = {k: json.loads(x) if x.startswith('[') else x for k, x in v.items()}
                ref = next(iter(ls.values()))
                for k, x in ls.items():
                    print('  seed', s, k, [i for i, (a, b) in enumerate(zip(ref, x)) if a != b])
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('rest', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--no-shrink', action='store_true')
    args = ap.parse_args()
    try:
        if args.prop == 'replay':
            return replay(args.rest[0])
        if args.prop == 'selftest':
            props = args.rest or sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'dsim', 'props'))
                                        if f.startswith('c') and f.endswith('.py'))
            return selftest(props, args.runs or 12, [args.seed, args.seed + 1])
        if args.prop == 'digests':
            args.prop = args.rest[0]
            return digests(args)
        return check(args)
    except HarnessError as e:
        print(f'ERROR: harness: {e}')
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
