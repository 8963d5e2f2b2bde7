#!/usr/bin/env python3-vt
"""check.py --property C01 [--tier quick|thorough]

Decides one property by symbolic execution of the current /repo/src.
exit 0: held on everything explored; exit 1: VIOLATION line printed.
"""
import argparse
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
EVID = os.path.join(HERE, 'evidence')


def confirm(prop, scn, n, seeds=(None,)):
    """write the counterexample and replay it on the unmodified code in a fresh process"""
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, 'replay-%s-%d.json' % (prop, n))
    exe = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    for seed in seeds:
        with open(p, 'w') as f:
            json.dump(scn if seed is None else dict(scn, hashseed=seed), f, indent=1)
        r = subprocess.run([exe, os.path.join(HERE, 'replay.py'), p], capture_output=True, text=True, timeout=300)
        if r.returncode == 1:
            return p, r.stdout
    return None, r.stdout + r.stderr


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--limit', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    limit = a.limit or (700 if tier == 'quick' else 5400)
    t0 = time.time()
    from vsym import harness as H
    import plan
    import checks  # noqa: F401
    try:
        H.load()
    except Exception as ex:
        # the package cannot even be imported from the working tree
        p, out = confirm(prop, dict(kind='importable', mods=H.MODULES), 0)
        if p:
            print(out)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            return 1
        print('NOTE: the symbolic loader cannot load the package: %r' % ex)
        raise
    plan.prepare(a.jobs)
    if a.v:
        print('prepared %.1f' % (time.time() - t0))
    tot = collections.Counter()
    funcs, samples, inc, errors, confirmed = set(), [], collections.Counter(), [], []
    per_class = collections.Counter()
    retries = collections.Counter()
    nleft = 0
    unreached = []
    results = []
    stop = False
    ctx = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(a.jobs, mp_context=ctx)
    fams = plan.phases(prop, tier)
    lost = 0
    try:
        # explorations that outlast their time slice go on after the first slice of all others, harvest rounds included
        backlog = []
        rounds = list(fams) + ['backlog'] + list(fams[1:]) + ['backlog']
        for ph in rounds:
            if stop:
                break
            if ph == 'backlog':
                jobs, backlog = backlog or [], None
            else:
                jobs = ph(results)
                if backlog is None:
                    backlog = []
            queue = collections.deque(jobs)
            running = {}
            while queue or running:
                while queue and len(running) < a.jobs * 2:
                    j = queue.popleft()
                    try:
                        running[ex.submit(H.run_job, j)] = j
                    except cf.process.BrokenProcessPool:
                        ex = cf.ProcessPoolExecutor(a.jobs, mp_context=ctx)
                        running[ex.submit(H.run_job, j)] = j
                done, _ = cf.wait(running, timeout=5, return_when=cf.FIRST_COMPLETED)
                if a.v and not done:
                    for j in running.values():
                        print('running', json.dumps(j)[:300], flush=True)
                for fu in done:
                    j = running.pop(fu)
                    try:
                        r = fu.result()
                    except Exception as e2:
                        lost += 1
                        inc['worker failed: %r on %s' % (e2, j['cls'])] += 1
                        continue
                    if not r['reached'] and j.get('alt') and not r['bad'] and not r['error']:
                        j2 = dict(j, base=j['alt'], k=1)
                        j2.pop('alt')
                        queue.append(j2)
                        continue
                    results.append(r)
                    if a.v:
                        print('%7.1f %-22s %-10s %s k=%s %s paths=%d %.2fs bad=%d inc=%d left=%d' % (
                            time.time() - t0, j['cls'], j['check'], j.get('base'), j.get('k'),
                            json.dumps(j.get('focus') or j.get('fixed') or ''), r['stats']['paths'], r['wall'],
                            len(r['bad']), len(r['inconclusive']), len(r['left'])), flush=True)
                    for k, v in r['stats'].items():
                        if k == 'maxdepth':
                            tot[k] = max(tot[k], v)
                        else:
                            tot[k] += v
                    funcs |= set(r['funcs'])
                    tot['jobs'] += 1
                    tot['reached'] += r['reached']
                    per_class[j['cls']] += r['reached']
                    if r['error']:
                        errors.append((j, r['error']))
                    for w in r['inconclusive']:
                        inc[w[:160]] += 1
                    if r['samples'] and len(samples) < 3 and len(json.dumps(r['samples'][0])) < 4000:
                        samples.append(r['samples'][0])
                    for i, (scn, what) in enumerate(r['bad'] + r['maybe']):
                        weak = i >= len(r['bad'])     # did not show in the worker: retried with other hash seeds
                        if weak:
                            retries[j['cls']] += 1
                            if retries[j['cls']] > 3 or sum(retries.values()) > 40:
                                inc['not reproduced on the real code: ' + what[:120]] += 1
                                continue
                        p, out = confirm(prop, dict(scn, property=prop), len(confirmed), (0, 1, 2, 3) if weak else (None,))
                        if p:
                            confirmed.append((p, what))
                            print(what[:1500])
                            print('job: %s' % json.dumps(j))
                            print('VIOLATION property=%s replay=%s' % (prop, p), flush=True)
                            stop = True
                            break
                        inc[('not reproduced on the real code: ' if weak else 'not confirmed in a fresh process: ') + what[:120]] += 1
                    left = r['left']
                    if left and not stop:
                        n = min(len(left), a.jobs)
                        for i in range(n):
                            (queue if backlog is None else backlog).append(dict(j, prefixes=left[i::n], slice=6))
                    if stop:
                        break
                if stop:
                    break
                if time.time() - t0 > limit:
                    nleft = len(queue) + len(running) + len(backlog or [])
                    stop = True
                    break
    finally:
        for p in list((getattr(ex, '_processes', None) or {}).values()):
            p.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    known = plan.known(prop)
    for line in known:
        print(line)
    for w, n in inc.most_common(20):
        print('NOTE inconclusive x%d: %s' % (n, w))
    for j, e in errors[:5]:
        print('NOTE job error %s\n%s' % (json.dumps(j)[:300], e[-800:]))
    if nleft:
        print('NOTE time limit: %d jobs not run' % nleft)
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['forks'] + tot['paths'],
            traces_validated_against_impl=tot['validated'], samples=samples,
            explorations=tot['jobs'], assertions_checked=tot['vcs'], assertions_reached=tot['reached'],
            queries_discharged=tot['queries'], solver_s=round(tot['solver_s'], 2), solver='z3 (python bindings)',
            solver_unknown=tot['unknown'], reachability_witnesses=tot['witness'], replays=tot['replays'],
            functions_encoded=sorted(funcs), assertions_per_class=dict(sorted(per_class.items())),
            bounds=plan.bounds(prop, tier), inconclusive=dict(inc.most_common(50)), job_errors=len(errors),
            not_run=nleft, exhaustive=(not nleft and not inc and not errors and not lost and not confirmed),
            values_concretised=tot['concretised'], known_findings=known),
        assumptions=plan.assumptions(prop), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d explorations, %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs, %d violation(s), %d inconclusive' % (
        prop, tier, tot['jobs'], tot['paths'], tot['vcs'], tot['queries'], tot['solver_s'], time.time() - t0, len(confirmed), sum(inc.values())))
    return 1 if confirmed else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
