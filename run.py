#!/usr/bin/env python3
"""Decides one property:  run.py <ID> [--tier quick|thorough] [--replay FILE]

Spawns worker processes (see pbt/worker.py), merges what they covered, writes
evidence/<ID>.json and prints the verdict.
  exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PY = '/opt/venv/bin/python'
REPO = os.environ.get('PBT_REPO', '/repo')


def worker_env(scratch, hashseed='0'):
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=hashseed,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONPATH=os.pathsep.join([REPO, VERIF]),
               PBT_REPO=REPO, PBT_SCRATCH=scratch, TMPDIR=scratch, HOME=scratch)
    env.pop('PYTHONSTARTUP', None)
    return env


def spawn(args, scratch):
    os.makedirs(scratch, exist_ok=True)
    log = open(os.path.join(scratch, 'log'), 'wb')
    return subprocess.Popen([PY, '-W', 'ignore', '-m', 'pbt.worker', *map(str, args)],
        cwd=scratch, env=worker_env(scratch), stdout=log, stderr=subprocess.STDOUT,
        stdin=subprocess.DEVNULL, start_new_session=True)


def kill(proc):
    try:
        os.killpg(proc.pid, 9)
    except OSError:
        pass
    proc.wait()


def tail(path, n=3000):
    try:
        return open(path, 'rb').read()[-n:].decode('utf8', 'replace')
    except OSError:
        return ''


def replay(pid, path, scratch, timeout=300):
    """'fails', 'passes', 'hangs' or 'error' when the replay file is run in a fresh process"""
    out = os.path.join(scratch, 'result.json')
    if os.path.exists(out):
        os.unlink(out)
    p = spawn([pid, '--replay', path, '--out', out], scratch)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return 'hangs', ''
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        return 'error', tail(os.path.join(scratch, 'log'))
    return ('fails' if r['failure'] else 'passes'), (r['failure'] or {}).get('message', '')


def minimise_history(pid, fail, make, scratch):
    """The failing case alone passes in a fresh process: find a short history that fails."""
    hist = fail['history']
    n = 1
    while True:
        part = hist[-n:] if n < len(hist) else hist
        path = make(dict(fail, history=part))
        if replay(pid, path, scratch)[0] == 'fails':
            break
        if n >= len(hist):
            return None
        n *= 4
    # drop chunks while it still fails
    budget = time.time() + 60
    size = max(1, len(part) // 2)
    while size >= 1 and time.time() < budget:
        i = 0
        while i < len(part) and time.time() < budget:
            cand = part[:i] + part[i + size:]
            if replay(pid, make(dict(fail, history=cand)), scratch)[0] == 'fails':
                part = cand
            else:
                i += size
        size //= 2
    return make(dict(fail, history=part))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('PBT_JOBS', '8')))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'pbt-{a.pid}-')
    try:
        if a.replay:
            s, msg = replay(a.pid, os.path.abspath(a.replay), scratch)
            print(s, msg)
            if s in ('fails', 'hangs'):
                print(f'VIOLATION property={a.pid} replay={a.replay}')
            return {'passes': 0, 'fails': 1, 'hangs': 1}.get(s, 2)
        return decide(a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(a, scratch, t0):
    limit = 600 if a.tier == 'quick' else 6 * 3600
    procs = []
    for i in range(a.jobs):
        d = os.path.join(scratch, f'w{i}')
        out = os.path.join(d, 'result.json')
        p = spawn([a.pid, '--tier', a.tier, '--seed', a.seed, '--shard', i, '--shards', a.jobs,
                   '--out', out], d)
        procs.append((i, d, out, p))
    results, hung, errors = [], [], []
    failed = False
    pending = list(procs)
    grace = None
    while pending:
        for item in list(pending):
            i, d, out, p = item
            if p.poll() is not None:
                pending.remove(item)
                try:
                    r = json.load(open(out))
                    results.append(r)
                    if r['failure'] and grace is None:
                        # one counterexample is enough; let others finish shortly
                        grace = time.time() + 5
                    if r['error']:
                        errors.append(r['error'])
                except (OSError, ValueError):
                    errors.append(f'worker {i} died with {p.returncode}\n' + tail(os.path.join(d, 'log')))
        now = time.time()
        if pending and grace is not None and now > grace:
            for i, d, out, p in pending:
                kill(p)
            pending = []
        if pending and now - t0 > limit:
            for i, d, out, p in pending:
                kill(p)
                hung.append(os.path.join(d, 'current.json'))
            pending = []
        time.sleep(0.05)

    fails = [r['failure'] for r in results if r['failure']]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)

    def make(fail):
        body = json.dumps(dict(property=a.pid, sub=fail['sub'], case=fail['case'],
                               history=fail.get('history') or [], message=fail['message']),
                          indent=1, sort_keys=True)
        h = hashlib.sha1(json.dumps([fail['sub'], fail['case']], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', f'{a.pid}-{fail["sub"]}-{h}.json')
        with open(path, 'w') as f:
            f.write(body)
        return path

    violation = None
    fails.sort(key=lambda f: len(json.dumps(f['case'])))
    for f in fails:
        path = make(dict(f, history=[]))
        s, msg = replay(a.pid, path, os.path.join(scratch, 'replay'))
        if s in ('fails', 'hangs'):
            violation = (f, path)
            break
    if violation is None and fails:
        for f in fails[:2]:
            path = minimise_history(a.pid, f, make, os.path.join(scratch, 'replay'))
            if path is not None:
                violation = (f, path)
                break
        else:
            # seen in a worker, but not again in a fresh process, even with its history
            errors.append('failure did not reproduce: ' + json.dumps(fails[0])[:4000])
    if violation is None and hung:
        for cur in hung:
            try:
                c = json.load(open(cur))
            except (OSError, ValueError):
                continue
            f = dict(c, message='does not terminate', history=[])
            path = make(f)
            if replay(a.pid, path, os.path.join(scratch, 'replay'), timeout=150)[0] == 'hangs':
                violation = (f, path)
                break
        else:
            errors.append('a worker ran out of time, but not because of one case')

    cov = merge(a, results)
    known = sorted({k for r in results for k in r.get('known', [])})
    ev = dict(property=a.pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              assumptions=sorted({x for r in results for x in r.get('assumptions', [])}),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{a.pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in known:
        print(f'KNOWN-FINDING: property={a.pid} {k}')
    print(f'{a.pid} {a.tier} seed={a.seed}: {cov["evaluations"]} cases, '
          f'{cov["distinct_nontrivial"]} distinct non-trivial, {ev["wall_s"]}s')
    for k, v in cov['per_check'].items():
        print(f'  {k}: {v["evaluations"]} cases, {v["distinct_nontrivial"]} distinct non-trivial'
              + (f', {v["labels"]}' if v['labels'] else ''))
    if violation:
        f, path = violation
        print(f'-- {f["sub"]}: {f["message"][:3000]}')
        print('   case: ' + json.dumps(f['case'])[:2000])
        print(f'VIOLATION property={a.pid} replay={path}')
        return 1
    if errors:
        print('CHECK ERROR')
        for e in errors[:3]:
            print(e[:4000])
        return 2
    if cov['distinct_nontrivial'] == 0:
        print('CHECK ERROR: nothing non-trivial was explored')
        return 2
    return 0


def merge(a, results):
    per, samples, rules = {}, [], []
    for r in results:
        for name, s in r['subs'].items():
            d = per.setdefault(name, dict(evaluations=0, comparisons=0, keys=set(), labels={}, truncated=False))
            d['evaluations'] += s['evaluations']
            d['comparisons'] += s['comparisons']
            d['keys'] |= set(s['keys'])
            d['truncated'] |= s['truncated']
            for k, v in s['labels'].items():
                d['labels'][k] = d['labels'].get(k, 0) + v
            if len([1 for x in samples if x['check'] == name]) < 3:
                samples += [dict(check=name, case=c) for c in s['samples'][:1]]
            rule = f'{name}: {s["rule"]}'
            if rule not in rules:
                rules.append(rule)
    out = dict(evaluations=sum(d['evaluations'] for d in per.values()),
               distinct_nontrivial=sum(len(d['keys']) for d in per.values()),
               comparisons=sum(d['comparisons'] for d in per.values()),
               rule=' | '.join(sorted(rules)), samples=sorted(samples, key=lambda s: s['check'])[:24],
               workers=len(results))
    out['per_check'] = {n: dict(evaluations=d['evaluations'], distinct_nontrivial=len(d['keys']),
        comparisons=d['comparisons'], labels=dict(sorted(d['labels'].items())),
        stopped_by_time_budget=d['truncated']) for n, d in sorted(per.items())}
    return out


if __name__ == '__main__':
    sys.exit(main())
