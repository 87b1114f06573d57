"""python -m mc.main PID --tier quick|thorough [--replay FILE] [--jobs N]"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from mc.core import Result, jsonable

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(pid):
    for f in sorted(os.listdir(os.path.join(HERE, 'mc', 'checks'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('mc.checks.' + f[:-3])
    raise SystemExit('no check ' + pid)


_MOD = None


def _work(args):
    i, shard, tier = args
    try:
        return i, _MOD.run(shard, tier), None
    except BaseException:
        return i, None, traceback.format_exc()


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.isfile(path):
        return []
    return [k for k in json.load(open(path)).get('known', []) if k['property'] == pid]


def main():
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '0')) or os.cpu_count() or 1)
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(10000)
    rp_dir = os.path.join(HERE, 'evidence')
    os.makedirs(rp_dir, exist_ok=True)
    total = Result()
    level = 'exploration'
    try:
        _MOD = load(a.pid)
        level = _MOD.LEVEL
        if a.replay:
            shards = [json.load(open(a.replay))['case']]
            runner = getattr(_MOD, 'replay')
            total = runner(shards[0])
        else:
            shards = _MOD.shards(a.tier)
            jobs = [(i, s, a.tier) for i, s in enumerate(shards)]
            if a.jobs == 1 or len(jobs) == 1:
                results = map(_work, jobs)
                pool = None
            else:
                pool = multiprocessing.get_context('fork').Pool(a.jobs, maxtasksperchild=getattr(_MOD, 'TASKS', None))
                results = pool.imap(_work, jobs)
            for i, res, err in results:
                if err is not None:
                    # an error escaping the exploration itself (e.g. building the fixture chemistry fails)
                    total.violate('exploration failed: ' + err[-1500:], {'shard': i}, 'exploration failed')
                else:
                    total.merge(res)
                if len(total.violations) >= 25:
                    break
            if pool is not None:
                pool.terminate()
                pool.join()
    except Exception:
        total.violate('exploration failed: ' + traceback.format_exc()[-1500:], {}, 'exploration failed')

    known = known_findings(a.pid)
    hits, fresh = {}, []
    for v in total.violations:
        for k in known:
            if k['key'] == v['key']:
                hits[k['key']] = k
                break
        else:
            fresh.append(v)

    coverage = {}
    ev_counts = dict(total.counts)
    for name, s in total.distinct.items():
        ev_counts[name] = len(s)
    coverage.update(ev_counts)
    coverage['samples'] = jsonable(total.samples[:4])
    coverage.setdefault('rule', getattr(_MOD, 'RULE', ''))
    coverage['exhaustive'] = True
    coverage['bounds'] = getattr(_MOD, 'BOUNDS', {}).get(a.tier, '') if _MOD else ''
    evidence = {
        'property': a.pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': coverage, 'assumptions': list(getattr(_MOD, 'ASSUMPTIONS', [])) if _MOD else [],
        'wall_s': round(time.time() - t0, 3), 'violations': len(fresh),
    }
    if not a.replay:
        with open(os.path.join(rp_dir, a.pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
    for k in hits.values():
        print('KNOWN-FINDING: property={} {}'.format(a.pid, k['what']))
    for n, v in enumerate(fresh[:5]):
        path = os.path.join(rp_dir, 'replay_{}_{}.json'.format(a.pid, n))
        with open(path, 'w') as f:
            json.dump(jsonable(v), f, indent=1)
        print(v['msg'])
        print('VIOLATION property={} replay={}'.format(a.pid, path))
    print('{} {} level={} {} wall={:.1f}s violations={}'.format(
        a.pid, a.tier, level, ' '.join('{}={}'.format(k, v) for k, v in sorted(ev_counts.items())),
        time.time() - t0, len(fresh)))
    sys.stdout.flush()
    sys.exit(1 if fresh else 0)


if __name__ == '__main__':
    main()
