'''Runs a check: many seeded runs over forked workers, minimisation, replay, evidence.

Exit 0: the property held on every run.  Exit 1: a VIOLATION line was printed.  Exit 2: the
machinery itself failed (never reported as a violation).
'''

import argparse
import gc
import importlib
import json
import logging
import os
import select
import signal
import subprocess
import sys
import traceback

from . import disk as D
from . import seam
from .core import Ctx, HarnessError, NoProgress, Violation, canon, digest, rng_for, seed_for
from .seam import REAL_TIME

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
RUN_LIMIT = 25          # processor seconds after which a run is re-examined with a step budget
STEP_BUDGET = 120_000_000
HARD_CAP = 660          # wall seconds after which no further runs are handed out
CONFIRM_WALL = 170

logging.disable(logging.CRITICAL)
KNOWN = os.path.join(VERIF, 'known-findings.json')


def now():
    return REAL_TIME['monotonic']()


def load_check(prop):
    return importlib.import_module(f'sim.checks.{prop.lower()}')


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == prop]


class Outcome:
    def __init__(self):
        self.violation = None     # (cls, message)
        self.error = None
        self.ctx = None


def _alarm(signum, frame):
    raise NoProgress()


def execute_plan(check, plan, *, keep_log=False, limit=None, steps=None):
    '''One run: a pure function of the plan and the code under test.'''
    out = Outcome()
    ctx = out.ctx = Ctx(keep_log)
    gc.disable()
    old = None
    if limit:
        # Processor time, which other load on the machine does not change much; the wall clock
        # is for a run that blocks
        old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, limit)
        signal.setitimer(signal.ITIMER_REAL, 6 * limit)
    tracer = None
    if steps:
        tracer = _StepBudget(steps)
        tracer.start()
    try:
        try:
            check.execute(plan, ctx)
        finally:
            if tracer:
                tracer.stop()
            if limit:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old[0])
                signal.signal(signal.SIGPROF, old[1])
    except Violation as v:
        out.violation = (v.cls, v.message)
    except NoProgress:
        out.violation = ('no-progress', 'the run did not finish within its step budget')
    except HarnessError as e:
        out.error = f'HarnessError: {e}\n{traceback.format_exc()}'
    except D.SimCrash:
        out.error = 'SimCrash escaped\n' + traceback.format_exc()
    except MemoryError:
        out.error = traceback.format_exc()
    except Exception as e:
        tb, inside = e.__traceback__, False
        while tb is not None:
            inside = inside or '/bitcoinx/' in tb.tb_frame.f_code.co_filename
            tb = tb.tb_next
        if inside:
            out.violation = ('unexpected-exception', f'{type(e).__name__}: {e}')
            ctx.log(traceback.format_exc())
        else:
            out.error = traceback.format_exc()
    finally:
        seam.reset()
        gc.enable()
    if out.violation:
        ctx.log('VIOLATION', *out.violation)
    return out


class _StepBudget:
    '''Counts executed lines of library code, deterministically.'''

    def __init__(self, budget):
        self.budget = budget

    def start(self):
        mon = sys.monitoring
        self.tool = 4
        mon.use_tool_id(self.tool, 'budget')
        left = [self.budget]

        def line(code, n):
            if '/bitcoinx/' not in code.co_filename:
                return mon.DISABLE
            left[0] -= 1
            if left[0] < 0:
                left[0] = 1 << 60
                raise NoProgress()
        mon.register_callback(self.tool, mon.events.LINE, line)
        mon.set_events(self.tool, mon.events.LINE)

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.free_tool_id(self.tool)


# ---------------------------------------------------------------- isolated execution

def isolated(check, plan, *, steps=None, wall=None, keep_log=False):
    '''Run a plan in a forked child.  Returns a dict: violation, error, log_digest, log.'''
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = execute_plan(check, plan, keep_log=keep_log, steps=steps)
            data = json.dumps({'violation': out.violation, 'error': out.error,
                               'log_digest': out.ctx.log_digest(), 'log': out.ctx.keep,
                               'faults': out.ctx.faults, 'recorded': out.ctx.recorded})
            with os.fdopen(w, 'wb') as f:
                f.write(data.encode())
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = now() + wall if wall else None
    timed_out = False
    while True:
        t = None if deadline is None else max(0, deadline - now())
        ready, _, _ = select.select([r], [], [], t)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {'violation': None, 'error': 'timeout', 'timeout': True, 'log_digest': ''}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        name = signal.Signals(sig).name
        if sig in (signal.SIGBUS, signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
            return {'violation': ('killed', f'the process was killed by {name}'),
                    'error': None, 'log_digest': name}
        return {'violation': None, 'error': f'child killed by {name}', 'log_digest': ''}
    try:
        result = json.loads(buf.decode())
    except ValueError:
        return {'violation': None, 'error': 'child gave no result', 'log_digest': ''}
    if result['violation']:
        result['violation'] = tuple(result['violation'])
    return result


# ---------------------------------------------------------------- workers

def make_plan(check, tier, verif_seed, index):
    seed = seed_for(check.ID, verif_seed, index)
    plan = check.generate(rng_for(seed), tier, index)
    plan['seed'] = seed
    # JSON round trip, so that a replay sees exactly what the first run saw
    return json.loads(canon(plan))


def worker_main(check, tier, verif_seed, indices, fd):
    '''Executes runs and writes one JSON line per event to fd.'''
    def send(obj):
        data = (canon(obj) + '\n').encode()
        while data:
            data = data[os.write(fd, data):]

    agg = {'n': 0, 'faults': {}, 'probes': {}, 'sim': 0.0, 'steps': 0}
    keys = []
    states = set()
    since = 0

    def flush():
        nonlocal since
        send({'t': 'agg', 'agg': agg, 'keys': keys, 'states': sorted(states - sent_states),
              'slow': list(slowest)})
        sent_states.update(states)
        keys.clear()
        agg.update({'n': 0, 'faults': {}, 'probes': {}, 'sim': 0.0, 'steps': 0})
        since = 0

    sent_states = set()
    slowest = [0, None]
    for index in indices:
        send({'t': 'start', 'i': index})
        plan = make_plan(check, tier, verif_seed, index)
        t0 = now()
        out = execute_plan(check, plan, limit=RUN_LIMIT)
        t0 = now() - t0
        if t0 > slowest[0]:
            slowest[:] = [round(t0, 2), index]
        ctx = out.ctx
        agg['n'] += 1
        agg['sim'] += ctx.sim_seconds
        agg['steps'] += ctx.steps
        for k, v in ctx.faults.items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in ctx.probes.items():
            agg['probes'][k] = agg['probes'].get(k, 0) + v
        states |= ctx.states
        keys.append([ctx.log_digest(), 1 if ctx.nontrivial else 0])
        if out.error:
            send({'t': 'error', 'i': index, 'error': out.error})
        if out.violation:
            send({'t': 'viol', 'i': index, 'v': out.violation, 'd': ctx.log_digest()})
        if ctx.known:
            send({'t': 'known', 'ids': sorted(set(ctx.known))})
        since += 1
        if since >= 25:
            flush()
            gc.collect()
    flush()
    send({'t': 'done'})


class Pool:

    def __init__(self, check, tier, verif_seed, runs, workers, deadline):
        self.check, self.tier, self.seed = check, tier, verif_seed
        self.workers = workers
        self.deadline = deadline
        self.queues = [list(range(w, runs, workers)) for w in range(workers)]
        self.agg = {'n': 0, 'faults': {}, 'probes': {}, 'sim': 0.0, 'steps': 0}
        self.keys = {}
        self.states = set()
        self.violations = []
        self.errors = []
        self.known = set()
        self.died = []
        self.capped = False
        self.slow = (0, -1)

    def spawn(self, w):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                worker_main(self.check, self.tier, self.seed, self.queues[w], wr)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        return {'w': w, 'pid': pid, 'r': r, 'buf': b'', 'cur': None, 'done': False}

    def message(self, p, m):
        t = m['t']
        if t == 'start':
            p['cur'] = m['i']
        elif t == 'agg':
            a = m['agg']
            for k in ('n', 'sim', 'steps'):
                self.agg[k] += a[k]
            for k in ('faults', 'probes'):
                for name, v in a[k].items():
                    self.agg[k][name] = self.agg[k].get(name, 0) + v
            for key, nontrivial in m['keys']:
                self.keys[key] = max(self.keys.get(key, 0), nontrivial)
            self.states.update(m['states'])
            self.slow = max(self.slow, tuple(m['slow']))
        elif t == 'viol':
            self.violations.append((m['i'], tuple(m['v'])))
        elif t == 'error':
            self.errors.append((m['i'], m['error']))
        elif t == 'known':
            self.known.update(m['ids'])
        elif t == 'done':
            p['done'] = True

    def run(self):
        procs = [self.spawn(w) for w in range(self.workers) if self.queues[w]]
        while procs:
            if now() > self.deadline:
                self.capped = True
                for p in procs:
                    os.kill(p['pid'], signal.SIGKILL)
            stop_early = len(self.violations) >= 3 or len(self.errors) >= 20
            ready, _, _ = select.select([p['r'] for p in procs], [], [], 1.0)
            for p in list(procs):
                if p['r'] not in ready:
                    continue
                chunk = os.read(p['r'], 1 << 16)
                if chunk:
                    p['buf'] += chunk
                    *lines, p['buf'] = p['buf'].split(b'\n')
                    for line in lines:
                        self.message(p, json.loads(line))
                    continue
                # End of file: the worker has ended
                os.close(p['r'])
                _, status = os.waitpid(p['pid'], 0)
                procs.remove(p)
                if p['done'] or self.capped or stop_early:
                    continue
                # It died in run p['cur'] (a fatal signal, or out of memory)
                cur = p['cur']
                self.died.append((cur, status))
                if cur is None or len(self.died) > 20:
                    self.errors.append((cur, f'worker died, status {status}'))
                    continue
                q = self.queues[p['w']]
                self.queues[p['w']] = q[q.index(cur) + 1:]
                self.violations.append((cur, ('killed', f'worker status {status}')))
                if self.queues[p['w']]:
                    procs.append(self.spawn(p['w']))
            if stop_early and procs:
                for p in procs:
                    try:
                        os.kill(p['pid'], signal.SIGKILL)
                    except ProcessLookupError:
                        pass


# ---------------------------------------------------------------- minimisation

def shrink(check, plan, cls, budget_s):
    '''ddmin over plan['ops'], then per-operation simplification, keeping the class.'''
    end = now() + budget_s
    tries = 0

    def fails(candidate):
        nonlocal tries
        if now() > end:
            return False
        tries += 1
        res = isolated(check, candidate, wall=min(20, max(1, end - now())))
        return bool(res['violation']) and res['violation'][0] == cls

    cur = json.loads(canon(plan))

    def with_ops(ops):
        c = dict(cur)
        c['ops'] = ops
        return c

    def ddmin():
        nonlocal cur
        n = 2
        progress = False
        while len(cur['ops']) >= 1 and now() < end:
            ops = cur['ops']
            size = max(1, -(-len(ops) // n))
            reduced = False
            for start in range(0, len(ops), size):
                cand = with_ops(ops[:start] + ops[start + size:])
                if fails(cand):
                    cur = cand
                    n = max(n - 1, 2)
                    reduced = progress = True
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        return progress

    def simpler(op):
        yield from getattr(check, 'simplify_op', lambda op: ())(op)
        for key in ('fault', 'window'):
            if op.get(key):
                yield {k: v for k, v in op.items() if k != key}

    def simplify():
        nonlocal cur
        progress = False
        for n in range(len(cur['ops'])):
            again = True
            while again and now() < end:
                again = False
                for cand_op in simpler(cur['ops'][n]):
                    cand = with_ops(cur['ops'][:n] + [cand_op] + cur['ops'][n + 1:])
                    if fails(cand):
                        cur = cand
                        again = progress = True
                        break
        for cand_cfg in getattr(check, 'simplify_cfg', lambda cfg: ())(cur.get('cfg', {})):
            cand = dict(cur, cfg=cand_cfg)
            if now() < end and fails(cand):
                cur = cand
                progress = True
        return progress

    if 'ops' in cur:
        while now() < end:
            a = ddmin()
            b = simplify()
            if not a and not b:
                break
    return cur, tries


# ---------------------------------------------------------------- a whole check

def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = f'{path}.tmp{os.getpid()}'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, path)


def replay_fresh(path, hashseed='0'):
    '''Replay in a fresh interpreter; returns its parsed last line.'''
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    res = subprocess.run([sys.executable, '-B', '-m', 'sim.replay', path, '--json'],
                         cwd=VERIF, env=env, capture_output=True, text=True, timeout=120)
    for line in reversed(res.stdout.splitlines()):
        if line.startswith('{'):
            return json.loads(line)
    return {'violation': None, 'error': res.stderr[-2000:]}


def determinism_sample(check, tier, verif_seed, indices):
    '''Digest of sampled runs, computed in fresh interpreters under other hash seeds.'''
    want = {}
    for i in indices:
        res = isolated(check, make_plan(check, tier, verif_seed, i))
        want[i] = res['log_digest']
    mismatches = []
    env = dict(os.environ, PYTHONHASHSEED='4242')
    res = subprocess.run(
        [sys.executable, '-B', '-m', 'sim.replay', '--digests', check.ID, tier, str(verif_seed),
         ','.join(map(str, indices))], cwd=VERIF, env=env, capture_output=True, text=True,
        timeout=300)
    got = {}
    for line in res.stdout.splitlines():
        if line.startswith('DIGEST '):
            _, i, d = line.split()
            got[int(i)] = d
    for i in indices:
        if got.get(i) != want[i]:
            mismatches.append(i)
    return mismatches


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--no-shrink', action='store_true')
    args = ap.parse_args(argv)
    start = now()
    seam.install()
    check = load_check(args.prop)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    runs = args.runs or check.RUNS[tier]
    print(f'{check.ID} tier={tier} VERIF_SEED={args.seed} runs={runs} workers={args.workers}',
          flush=True)
    if hasattr(check, 'prepare'):
        check.prepare()
    pool = Pool(check, tier, args.seed, runs, args.workers, start + HARD_CAP)
    pool.run()
    run_wall = now() - start

    findings = {k['id']: k for k in known_findings(check.ID)}
    status = 0
    confirmed = None
    shrink_tries = 0
    pool.violations.sort()
    transient = []
    for index, (cls, msg) in pool.violations:
        plan = make_plan(check, tier, args.seed, index)
        res = isolated(check, plan, steps=STEP_BUDGET if cls == 'no-progress' else None,
                       wall=CONFIRM_WALL)
        if not res['violation']:
            transient.append((index, cls, res.get('error')))
            continue
        cls = res['violation'][0]
        if hasattr(check, 'concretize') and res.get('recorded'):
            explicit = json.loads(canon(check.concretize(plan, res['recorded'])))
            res = isolated(check, explicit, wall=CONFIRM_WALL,
                           steps=STEP_BUDGET if cls == 'no-progress' else None)
            if res['violation'] and res['violation'][0] == cls:
                plan = explicit
        if args.no_shrink or cls == 'no-progress':
            small = plan
        else:
            small, shrink_tries = shrink(check, plan, cls, 90)
        final = isolated(check, small, steps=STEP_BUDGET if cls == 'no-progress' else None,
                         wall=CONFIRM_WALL, keep_log=True)
        if not final['violation']:
            small = plan
            final = isolated(check, plan, wall=CONFIRM_WALL, keep_log=True)
        if not final['violation']:
            transient.append((index, cls, 'vanished after shrinking'))
            continue
        cls, msg = final['violation']
        name = f'{check.ID}-{seed_for(check.ID, args.seed, index):016x}.json'
        path = os.path.join(REPLAYS, name)
        write_json(path, {
            'property': check.ID, 'index': index, 'verif_seed': args.seed,
            'seed': seed_for(check.ID, args.seed, index), 'tier': tier,
            'violation': [cls, msg], 'plan': small, 'log_digest': final['log_digest'],
            'log': (final.get('log') or [])[-400:],
            'original_ops': len(plan.get('ops', [])), 'ops': len(small.get('ops', [])),
            'shrink_executions': shrink_tries,
        })
        again = replay_fresh(path)
        same = again.get('violation') and again['violation'][0] == cls and \
            again.get('log_digest') == final['log_digest']
        print(f'violation class={cls}: {msg}')
        print(f'  seed={seed_for(check.ID, args.seed, index)} index={index} '
              f'ops {len(plan.get("ops", []))} -> {len(small.get("ops", []))}')
        print(f'  replay in a fresh process: '
              f'{"identical" if same else "DIFFERS: " + str(again)[:300]}')
        print(f'  to replay: {VERIF}/replay {path}')
        confirmed = (path, cls, msg)
        print(f'VIOLATION property={check.ID} replay={path}', flush=True)
        status = 1
        break

    for kid in sorted(pool.known):
        k = findings.get(kid)
        if k is None:
            pool.errors.append((None, f'unlisted known finding {kid}'))
        else:
            print(f'KNOWN-FINDING: property={check.ID} {k["what"]}')

    mismatches = []
    if status == 0 and runs >= 8:
        n = 6 if tier == 'quick' else 24
        sample = sorted({(k * runs) // n for k in range(n)})
        mismatches = determinism_sample(check, tier, args.seed, sample)

    if status == 0:
        if pool.errors:
            status = 2
            for i, e in pool.errors[:3]:
                print(f'HARNESS ERROR in run {i}:\n{e}', file=sys.stderr)
        elif transient:
            bad = [t for t in transient if t[1] != 'no-progress']
            if bad:
                status = 2
                print(f'HARNESS ERROR: violations that did not reproduce: {bad}', file=sys.stderr)
            for t in transient:
                if t[1] == 'no-progress' and t[2]:
                    status = 2
                    print(f'HARNESS ERROR: slow run {t}', file=sys.stderr)
        if pool.capped:
            print(f'note: {HARD_CAP} s wall-clock cap reached: {pool.agg["n"]} of {runs} runs done')
            if pool.agg['n'] < min(runs, 100):
                status = 2
                print('HARNESS ERROR: too few runs within the wall-clock cap', file=sys.stderr)
        if mismatches:
            status = 2
            print(f'HARNESS ERROR: runs not deterministic: {mismatches}', file=sys.stderr)

    samples = []
    for i in (0, (pool.agg["n"] or runs) // 2):
        plan = make_plan(check, tier, args.seed, i)
        text = canon(plan)
        samples.append({'index': i, 'seed': plan['seed'],
                        'plan': json.loads(text) if len(text) < 6000 else text[:6000] + '...'})
    wall = now() - start
    distinct = len(pool.keys)
    nontrivial = sum(pool.keys.values())
    agg = pool.agg
    coverage = {
        'evaluations': agg['n'],
        'distinct_nontrivial': nontrivial,
        'distinct_runs': distinct,
        'rule': check.RULE,
        'samples': samples,
        'simulated_runs': agg['n'],
        'runs_per_hour': round(agg['n'] / max(run_wall, 1e-9) * 3600),
        'seeds': f'sha256("{check.ID}:{args.seed}:<index>"), index 0..{runs - 1}',
        'simulated_seconds': round(agg['sim'], 1),
        'operations_executed': agg['steps'],
        'faults_fired': dict(sorted(agg['faults'].items())),
        'probes': dict(sorted(agg['probes'].items())),
        'distinct_states': len(pool.states),
        'state_measure': getattr(check, 'STATE_MEASURE', 'distinct event-log digests'),
        'components': check.COMPONENTS,
        'determinism_resampled': 0 if status == 1 else (6 if tier == 'quick' else 24),
        'determinism_mismatches': len(mismatches),
        'runs_planned': runs,
        'slowest_run': {'seconds': pool.slow[0], 'index': pool.slow[1]},
        'wall_clock_capped': pool.capped,
        'workers': args.workers,
    }
    if confirmed:
        coverage['violation'] = {'replay': confirmed[0], 'class': confirmed[1],
                                 'message': confirmed[2], 'shrink_executions': shrink_tries}
    evidence = {
        'property': check.ID, 'tier': tier, 'seed': args.seed, 'level': 'exploration',
        'coverage': coverage, 'assumptions': getattr(check, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2), 'violations': 1 if status == 1 else 0,
    }
    if not args.no_evidence:
        write_json(os.path.join(EVIDENCE, f'{check.ID}.json'), evidence)
    missing = [p for p in getattr(check, 'MUST_PROBE', ()) if not agg['probes'].get(p)]
    print(f'{check.ID}: {agg["n"]} runs, {nontrivial} distinct non-trivial, '
          f'{len(pool.states)} states, faults {sum(agg["faults"].values())} of '
          f'{len(agg["faults"])} kinds, slowest {pool.slow}, {wall:.1f}s, exit {status}')
    if missing:
        print(f'  note: probes at zero: {missing}')
    return status


if __name__ == '__main__':
    sys.exit(main())
