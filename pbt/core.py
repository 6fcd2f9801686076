import hashlib, json, os, random, sys, time, traceback

from .hyp import given, settings, seed as hseed, HealthCheck, Phase, errors, st


class Violation(AssertionError):
    """The property does not hold for the case at hand."""


class HarnessError(Exception):
    """The check could not do its work."""


class _Stop(BaseException):
    pass


def require(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def raises(exc, f, *args, **kwargs):
    """require that f raises exc (and nothing else)"""
    try:
        r = f(*args, **kwargs)
    except exc:
        return
    raise Violation(f'expected {exc} but got {r!r}')


class Ctx:
    """Handed to every case; collects what it did."""
    def __init__(self):
        self.comparisons = 0
        self.nontrivial = False
        self.labels = []
        self.known = set()
        self.skipped = False

    def count(self, n=1):
        self.comparisons += n

    def label(self, l):
        self.labels.append(l)


class Sub:
    """One executable check of a property.

    gen:  () -> hypothesis strategy of JSON-able cases
    run:  (case, ctx) -> None, raises if the property does not hold
    rule: how cases are made and what makes one non-trivial
    regressions: cases always run first
    """
    def __init__(self, name, gen, run, rule, quick, thorough=None, regressions=(),
                 quick_s=12.0, thorough_s=None, exhaustive=None, max_shards=None):
        self.name = name
        self.gen = gen
        self.run = run
        self.rule = rule
        self.n = dict(quick=quick, thorough=thorough if thorough is not None else quick * 40)
        self.budget = dict(quick=quick_s, thorough=thorough_s if thorough_s is not None else quick_s * 40)
        self.regressions = list(regressions)
        self.exhaustive = exhaustive      # optional list of cases to enumerate instead of generating
        self.max_shards = max_shards


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def key(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb[-4:])
    return f'{type(e).__name__}: {e} [{where}]'[:3000]


INFRA = (HarnessError, MemoryError, KeyboardInterrupt, OSError)
LIMIT = 6 << 30             # address space of a worker, see worker.py


def vmsize():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[0]) * os.sysconf('SC_PAGE_SIZE')


class SubRunner:
    def __init__(self, mod, sub, tier, base_seed, shard, shards, current):
        self.mod, self.sub, self.tier = mod, sub, tier
        self.shard, self.shards = shard, shards
        self.seed = int.from_bytes(hashlib.sha256(
            f'{base_seed}/{mod.PID}/{sub.name}/{shard}'.encode()).digest()[:6], 'big')
        self.current = current
        self.stats = dict(evaluations=0, comparisons=0, keys=set(), labels={}, samples=[],
                          rule=sub.rule, truncated=False)
        self.history = []
        self.failure = None
        self.error = None
        self.known = set()
        self.biggest = -1

    def one(self, case):
        # cases are plain data
        case = json.loads(canon(case))
        if self.current:
            with open(self.current, 'w') as f:
                json.dump(dict(sub=self.sub.name, case=case), f)
        ctx = Ctx()
        random.seed(key(case))
        before = vmsize()
        try:
            self.sub.run(case, ctx)
        except _Stop:
            raise
        except INFRA as e:
            if isinstance(e, MemoryError) and before < LIMIT // 2:
                # this case alone wants more than half of the limit
                self._fail(case, Violation(f'memory exhausted ({describe(e)})'))
            if isinstance(e, OSError) and not _is_infra(e):
                self._fail(case, e)
            self.error = self.error or (self.sub.name + ': ' + describe(e) + '\n' + traceback.format_exc()
                                        + '\ncase: ' + canon(case)[:2000])
            raise _Stop()
        except errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            if isinstance(e, (SystemExit, GeneratorExit)):
                e = Violation(repr(e))
            self._fail(case, e)
        finally:
            self.history.append([self.sub.name, case])
        self.known |= ctx.known
        s = self.stats
        s['evaluations'] += 1
        s['comparisons'] += ctx.comparisons
        for l in ctx.labels:
            s['labels'][l] = s['labels'].get(l, 0) + 1
        if ctx.nontrivial:
            s['keys'].add(key(case))
            size = len(canon(case))
            # keep an early sample and a big (but readable) one
            if len(s['samples']) < 1 or (self.biggest < size < 1500):
                self.biggest = size
                s['samples'] = [case]

    def _fail(self, case, e):
        if self.failure is None:
            self.shrink_until = time.time() + float(os.environ.get('PBT_SHRINK') or (20 if self.tier == 'quick' else 60))
        if self.failure is None or len(canon(case)) <= len(canon(self.failure['case'])):
            self.failure = dict(sub=self.sub.name, case=case, message=describe(e),
                                history=list(self.history))
        raise e

    def go(self):
        sub = self.sub
        t_end = time.time() + sub.budget[self.tier]
        try:
            for i, case in enumerate(sub.regressions):
                if i % self.shards == self.shard:
                    self.one(case)
            if sub.exhaustive is not None:
                for i, case in enumerate(sub.exhaustive(self.tier)):
                    if i % self.shards == self.shard:
                        self.one(case)
            if sub.gen is None:
                return
            if sub.max_shards is not None and self.shard >= sub.max_shards:
                return
            shards = min(self.shards, sub.max_shards or self.shards)
            n = -(-sub.n[self.tier] // shards)

            def body(case):
                if self.failure is None:
                    if time.time() > t_end:
                        self.stats['truncated'] = True
                        raise _Stop()
                elif time.time() > self.shrink_until:
                    raise _Stop()
                self.one(case)

            # hypothesis runs are kept moderate in size; long runs are many runs
            done, rnd = 0, 0
            while done < n and self.failure is None and time.time() < t_end:
                k = min(n - done, 2000)
                f = given(sub.gen())(body)
                f = settings(max_examples=k, database=None, deadline=None, derandomize=False,
                             phases=(Phase.generate, Phase.shrink), print_blob=False,
                             report_multiple_bugs=False,
                             suppress_health_check=list(HealthCheck))(f)
                f = hseed(self.seed + rnd)(f)
                f()
                done += k
                rnd += 1
        except _Stop:
            pass
        except BaseException as e:
            if self.failure is None:
                self.error = self.error or (sub.name + ': ' + describe(e) + '\n' + traceback.format_exc())


def _is_infra(e):
    import errno
    return e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN,
                       errno.ENOENT, errno.EACCES, errno.EPERM, errno.EROFS, errno.EIO, errno.EPIPE)
