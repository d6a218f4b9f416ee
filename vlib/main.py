"""./check PROPERTY: runs the property's scenarios, each in a process of its own, and writes the evidence"""
import argparse
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_findings():
    """known findings: property -> {mechanism}; see known_findings.txt"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                parts = dict(x.split('=', 1) for x in line.split('|')[0].split()[1:] if '=' in x)
                out.setdefault(parts['property'], {})[parts['key'].replace('_', ' ')] = line.split('|', 1)[1].strip()
    return out


def run_scenario(s, shard, seed, tier, path):
    from vlib import build
    from vlib.core import Monitor
    m = Monitor(s.prop, s.name, shard, seed, tier)
    try:
        s.fn(m)
        res = m.result()
        res['status'] = 'done'
    except (MemoryError, KeyboardInterrupt) as e:
        res = m.result()
        res['status'] = f'inconclusive: {type(e).__name__}'
    except OSError as e:
        res = m.result()
        tb = traceback.format_exc()
        if build.REPO + '/copulae' in tb:
            m.fail('unexpected exception', error=repr(e), tb=tb[-2500:])
            res = m.result()
            res['status'] = 'done'
        else:
            res['status'] = 'inconclusive: ' + tb[-2500:]
    except ImportError as e:
        res = m.result()
        res['status'] = 'inconclusive: ' + traceback.format_exc()[-2500:]
    except BaseException as e:
        # either the code under test raised where the property says it answers, or its answer could not be
        # interpreted (None, wrong type, wrong shape): the workload is deterministic and clean on a good tree
        tb = traceback.format_exc()
        m.oracle += 1
        m.fail('unexpected exception', error=repr(e), tb=tb[-2500:])
        res = m.result()
        res['status'] = 'done'
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(path + '.tmp', path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    only_shard = None
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, a.only, only_shard = r['seed'], r['tier'], r['scenario'], r['shard']
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'

    from vlib import build, boot
    try:
        mod_name = next(f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'checks')))
                        if f.lower().startswith(prop.lower() + '_'))
        boot.boot()
        mod = importlib.import_module('checks.' + mod_name)
    except Exception:
        traceback.print_exc()
        print(f'INCONCLUSIVE property={prop} could not build or import')
        return 2

    from vlib.core import SCENARIOS
    tasks = []
    for s in SCENARIOS[prop]:
        if tier not in s.tiers or (a.only and s.name != a.only):
            continue
        for k in range(s.shards.get(tier, 1)):
            if only_shard is None or k == only_shard:
                tasks.append((s, k))
    tasks.sort(key=lambda t: -t[0].weight)

    limit = float(os.environ.get('VERIF_LIMIT', 780 if tier == 'quick' else 6 * 3600))
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    results, pending, running = [], list(enumerate(tasks)), {}
    sys.stdout.flush()
    try:
        while pending or running:
            while pending and len(running) < a.jobs:
                i, (s, k) = pending.pop(0)
                path = os.path.join(work, f'{i}.pkl')
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        os.chdir(work)
                        sys.stdin = open(os.devnull)
                        log = os.open(os.path.join(work, f'{i}.log'), os.O_WRONLY | os.O_CREAT)
                        os.dup2(log, 1)
                        os.dup2(log, 2)
                        run_scenario(s, k, a.seed, tier, path)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                running[pid] = (s, k, path, time.time(), i)
            done = False
            for pid in list(running):
                p, st = os.waitpid(pid, os.WNOHANG)
                s, k, path, start, i = running[pid]
                if p == 0:
                    if time.time() - t0 > limit:
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        os.waitpid(pid, 0)
                        st, p = None, pid
                    else:
                        continue
                done = True
                del running[pid]
                try:  # what it may have left behind
                    os.killpg(pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                tail = ''
                lp = os.path.join(work, f'{i}.log')
                if os.path.exists(lp):
                    tail = open(lp, errors='replace').read()[-3000:]
                if os.path.exists(path):
                    res = pickle.load(open(path, 'rb'))
                elif st is None:
                    res = empty(s, k, f'inconclusive: stopped by the watchdog after {time.time() - start:.0f} s')
                elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE,
                                                               signal.SIGILL, signal.SIGABRT):
                    res = empty(s, k, 'done')
                    res['violations'] = [{'what': 'the process was ended by a fatal signal', 'scenario': s.name,
                                          'shard': k, 'context': {'signal': os.WTERMSIG(st), 'log': tail}}]
                else:
                    res = empty(s, k, f'inconclusive: status {st}; {tail}')
                res['wall'] = time.time() - start
                res['min_events'] = s.min_events
                results.append(res)
            if not done:
                time.sleep(0.02)
    finally:
        for pid in running:
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(work, ignore_errors=True)

    return report(prop, mod, a, tier, results, t0)


def empty(s, k, status):
    return {'scenario': s.name, 'shard': k, 'events': 0, 'oracle': 0, 'keys': set(), 'trivial': 0, 'samples': [],
            'violations': [], 'counters': {}, 'status': status}


def report(prop, mod, a, tier, results, t0):
    findings = load_findings().get(prop, {})
    keys, per, inconclusive, violations, known = set(), {}, [], [], {}
    results.sort(key=lambda r: (r['scenario'], r['shard']))
    samples = []
    for r in results:
        keys |= {(r['scenario'], k) for k in r['keys']}
        d = per.setdefault(r['scenario'], {'events': 0, 'distinct': 0, 'oracle_decisions': 0, 'shards': 0, 'wall_s': 0.})
        d['events'] += r['events']
        d['oracle_decisions'] += r['oracle']
        d['shards'] += 1
        d['wall_s'] = round(d['wall_s'] + r.get('wall', 0), 2)
        for k, v in r['counters'].items():
            d.setdefault('observed', {})
            d['observed'][k] = d['observed'].get(k, 0) + v
        for x in r['samples'][:2]:
            if len(samples) < 40:
                samples.append({'scenario': r['scenario'], 'case': x})
        for v in r['violations']:
            if v['what'] in findings:
                known[v['what']] = v
            else:
                violations.append(v)
        if r['status'] != 'done':
            inconclusive.append(f"{r['scenario']}[{r['shard']}]: {r['status']}")
        elif r['events'] < r.get('min_events', 1) and not r['violations']:
            inconclusive.append(f"{r['scenario']}[{r['shard']}]: only {r['events']} events observed")
    for name, d in per.items():
        d['distinct'] = sum(1 for k in keys if k[0] == name)
    if not results:
        inconclusive.append('no scenario ran')

    ev = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['events'] for d in per.values()),
            'distinct_nontrivial': len(keys),
            'rule': getattr(mod, 'RULE', (mod.__doc__ or '').strip()),
            'samples': samples or ['none'],
            'oracle_decisions': sum(d['oracle_decisions'] for d in per.values()),
            'scenarios': per,
            'inconclusive': inconclusive,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not a.only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', f'.{prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        os.rename(tmp, os.path.join(HERE, 'evidence', f'{prop}.json'))

    for what, v in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} {what}: {findings[what]}')
    if violations:
        rd = os.path.join(HERE, 'replays')
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations[:8]):
            path = os.path.join(rd, f"{prop}-{tier}-{a.seed}-{i}.json")
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': a.seed, 'tier': tier, **v,
                           'replay': f'./check {prop} --replay {path}'}, f, indent=1, default=repr)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['scenario']}: {v['what']}: {json.dumps(v['context'], default=repr)[:600]}")
        print(f'{prop}: VIOLATED ({len(violations)} observations) in {time.time() - t0:.1f} s')
        return 1
    if inconclusive:
        print(f'INCONCLUSIVE property={prop}')
        for x in inconclusive:
            print('  ' + x)
        return 2
    print(f"{prop}: held on {ev['coverage']['evaluations']} events, {len(keys)} distinct, "
          f"{ev['coverage']['oracle_decisions']} oracle decisions, {time.time() - t0:.1f} s")
    return 0


if __name__ == '__main__':
    sys.exit(main())
