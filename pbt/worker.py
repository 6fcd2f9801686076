"""Runs one shard of a check, or a replay file, and writes the result as JSON."""
import argparse, faulthandler, importlib, json, os, resource, sys, traceback

faulthandler.enable()
sys.setrecursionlimit(5000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--out', required=True)
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    a = ap.parse_args()
    res = dict(subs={}, failure=None, error=None, known=[], assumptions=[])
    save = None
    try:
        if os.environ.get('PBT_COV'):
            from pbt import cov
            save = cov.start(os.environ['PBT_COV'], os.path.join(os.path.realpath(os.environ['PBT_REPO']), 'peak'))
        import peak
        repo = os.path.realpath(os.environ['PBT_REPO'])
        if not os.path.realpath(peak.__file__).startswith(repo + os.sep):
            raise RuntimeError(f'peak comes from {peak.__file__}')
        from pbt import core
        resource.setrlimit(resource.RLIMIT_AS, (core.LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
        try:
            mod = importlib.import_module(f'pbt.checks.{a.pid.lower()}')
        except Exception as e:
            # the code under test does not even offer what the check imports
            raise
        res['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', []))
        subs = {s.name: s for s in mod.SUBS}
        if a.replay:
            rep = json.load(open(a.replay))
            # the whole history is judged: an earlier case that fails is a violation as well
            todo = (rep.get('history') or []) + [[rep['sub'], rep['case']]]
            for name, case in todo:
                r = core.SubRunner(mod, subs[name], 'quick', 0, 0, 1, None)
                try:
                    r.one(case)
                except BaseException as e:
                    if r.failure is None and case is todo[-1][1]:
                        raise
                if r.failure is not None:
                    break
            res['failure'] = r.failure
        else:
            for s in mod.SUBS:
                if a.sub and s.name != a.sub:
                    continue
                r = core.SubRunner(mod, s, a.tier, a.seed, a.shard, a.shards,
                                   os.path.join(os.path.dirname(a.out), 'current.json'))
                r.go()
                st = dict(r.stats, keys=sorted(r.stats['keys']))
                res['subs'][s.name] = st
                res['known'] += sorted(r.known)
                if r.error:
                    res['error'] = r.error
                if r.failure:
                    res['failure'] = r.failure
                    break
                if r.error:
                    break
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(e))[-6000:]
    if save:
        save()
    tmp = a.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(res, f)
    os.replace(tmp, a.out)
    sys.stdout.flush()
    os._exit(0)


main()
