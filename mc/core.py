"""Explorer framework: jobs in forked children, replayable violations,
known findings, evidence.

A check is a module with
    PROP, jobs(tier) -> [Job], and optional ASSUMPTIONS, NOTE.
A job is a deterministic, exhaustive exploration of one finite piece of the
space; it runs in its own freshly forked process, so no job sees caches or
names another one left behind, and running a job again is its replay.
"""
import gc
import io
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback
import warnings

sys.set_int_max_str_digits(0)       # messages may show wide values

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILS = 12          # per job; the job stops after that many
JOB_MEM = 6 << 30


class Stop(Exception):
    pass


class Job:
    def __init__(self, name, fn, *args, weight=1):
        self.name, self.fn, self.args, self.weight = name, fn, args, weight


class Ctx:
    """what a running job reports to"""

    def __init__(self, job, known):
        self.job = job
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.fails = []
        self.known_hits = {}
        self.known = known
        self.samples = []
        self.extra = {}
        self._seen = set()

    def state(self, key):
        """count a distinct state once; returns True when it is new"""
        if key in self._seen:
            return False
        self._seen.add(key)
        self.states += 1
        return True

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def fail(self, what, detail, key=None):
        """report a failing case.

        what: short stable class of the failure;  detail: the input or history
        that fails, with expected and observed;  key: identifies the failure
        against known_findings.json (exact match)
        """
        if key is not None and key in self.known:
            n, d = self.known_hits.get(key, (0, detail))
            self.known_hits[key] = (n + 1, d)
            return
        self.fails.append({'what': what, 'detail': detail, 'key': key})
        if len(self.fails) >= MAX_FAILS:
            raise Stop()

    def check(self, got, want, what, detail, key=None):
        """compare one observation with the model's prediction"""
        self.transitions += 1
        if got != want:
            d = detail() if callable(detail) else detail
            self.fail(what, f'{d}: expected {want!r}, got {got!r}', key)
            return False
        return True

    def raises(self, exc, fn, what, detail):
        """fn must raise exactly one of the exception classes exc"""
        self.transitions += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            d = detail() if callable(detail) else detail
            self.fail(what, f'{d}: expected {_en(exc)}, raised {type(e).__name__}: {e}')
            return False
        d = detail() if callable(detail) else detail
        self.fail(what, f'{d}: expected {_en(exc)}, returned {show(r)}')
        return False


def _en(exc):
    return '/'.join(e.__name__ for e in (exc if isinstance(exc, tuple) else (exc,)))


def show(x):
    try:
        return repr(x)
    except Exception as e:
        return f'<{type(x).__name__}, unprintable: {e}>'


def attempt(fn, *args, **kw):
    """('ok', value) or ('exc', class name) - for comparing outcomes"""
    try:
        return ('ok', fn(*args, **kw))
    except Exception as e:
        return ('exc', type(e).__name__)


def _child(job, known, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (JOB_MEM, JOB_MEM))
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = io.StringIO()
    warnings.simplefilter('ignore')
    gc.collect()
    ctx = Ctx(job, known)
    t = time.time()
    try:
        job.fn(ctx, *job.args)
    except Stop:
        pass
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-4:]
        try:
            ctx.fail('unexpected exception',
                     f'{type(e).__name__}: {e} (in {" > ".join(where)})')
        except Stop:
            pass
        ctx.fails[-1]['traceback'] = traceback.format_exc()[-3000:]
    r = dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces,
             fails=ctx.fails, known=ctx.known_hits, samples=ctx.samples,
             extra=ctx.extra, wall=time.time() - t)
    data = pickle.dumps(r)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def run_jobs(jobs, known, nproc, deadline):
    """fork per job, at most nproc at once; yields (job, result)"""
    queue = sorted(jobs, key=lambda j: -j.weight)
    live = {}
    results = []
    while queue or live:
        while queue and len(live) < nproc:
            job = queue.pop(0)
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rfd)
                    _child(job, known, wfd)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wfd)
            live[rfd] = (job, pid, [])
        left = deadline - time.time()
        ready = select.select(list(live), [], [], max(0, min(left, 5)))[0] if live else []
        for fd in ready:
            data = os.read(fd, 1 << 20)
            job, pid, buf = live[fd]
            if data:
                buf.append(data)
                continue
            os.close(fd)
            del live[fd]
            _, st = os.waitpid(pid, 0)
            if buf:
                results.append((job, pickle.loads(b''.join(buf))))
            else:
                results.append((job, _dead(f'the process exploring it ended abnormally (status {st})')))
        if time.time() > deadline:
            for fd, (job, pid, _) in live.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                results.append((job, _dead('exploration did not terminate in time: an operation hangs')))
            for job in queue:
                results.append((job, _dead(None)))
            return results
    return results


def _dead(msg):
    fails = [] if msg is None else [{'what': 'no answer', 'detail': msg, 'key': None}]
    return dict(states=0, transitions=0, traces=0, fails=fails, known={},
                samples=[], extra={'jobs_not_run': 1}, wall=0)


def load_known(prop):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        data = json.load(f)
    return {k['key']: k for k in data['findings'] if k['property'] == prop}


def explore(mod, tier, only=None):
    known = load_known(mod.PROP)
    jobs = mod.jobs(tier)
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), 'job names must be unique'
    if only is not None:
        jobs = [j for j in jobs if j.name == only]
    budget = float(os.environ.get('MC_BUDGET', 800 if tier == 'quick' else 20000))
    results = run_jobs(jobs, known, int(os.environ.get('MC_PROCS', os.cpu_count() or 4)),
                       time.time() + budget)
    results.sort(key=lambda jr: names.index(jr[0].name))
    return known, jobs, results


def main(mod, tier, seed, replay=None):
    t0 = time.time()
    prop = mod.PROP
    if replay:
        with open(replay) as f:
            want = json.load(f)
        known, jobs, results = explore(mod, want['tier'], only=want['job'])
        again = [f for _, r in results for f in r['fails']
                 if f['what'] == want['what']]
        same = [f for f in again if f['detail'] == want['detail']]
        for f in (same or again)[:1]:
            print(f"reproduced: {f['what']}: {f['detail']}")
            print(f'VIOLATION property={prop} replay={replay}')
        if not again:
            print('not reproduced: the property holds on this job')
        return 1 if again else 0

    known, jobs, results = explore(mod, tier)
    tot = {k: sum(r[k] for _, r in results) for k in ('states', 'transitions', 'traces')}
    extra = {}
    for _, r in results:
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
    samples = [f'{j.name}: {s}' for j, r in results for s in r['samples']]
    if len(samples) > 12:
        step = len(samples) / 12
        samples = [samples[int(i * step)] for i in range(12)]
    fails = [(j, f) for j, r in results for f in r['fails']]
    hits = {}
    for _, r in results:
        for k, (n, d) in r['known'].items():
            m, d0 = hits.get(k, (0, d))
            hits[k] = (m + n, d0)
    incomplete = extra.get('jobs_not_run', 0)
    cov = dict(states=tot['states'], transitions=tot['transitions'],
               traces_validated_against_impl=tot['traces'],
               samples=samples, jobs=len(jobs),
               exhaustive=not incomplete and not fails,
               space=mod.SPACE[tier] if isinstance(mod.SPACE, dict) else mod.SPACE,
               counting=getattr(mod, 'COUNTING', COUNTING),
               slowest_jobs=[f'{j.name} {r["wall"]:.1f}s' for j, r in
                             sorted(results, key=lambda x: -x[1]['wall'])[:3]])
    cov.update({k: v for k, v in sorted(extra.items())})
    if hits:
        cov['known_finding_cases'] = {k: n for k, (n, _) in hits.items()}
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    for k, (n, d) in sorted(hits.items()):
        print(f'KNOWN-FINDING: property={prop} {k}: {known[k]["what"]} ({n} cases, e.g. {d})')
    print(f'{prop} {tier}: {len(jobs)} jobs, {tot["states"]} states, '
          f'{tot["transitions"]} transitions, {tot["traces"]} traces, '
          f'{len(fails)} failures, {time.time() - t0:.1f}s')
    if fails:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        shown = 0
        for i, (j, f) in enumerate(fails):
            path = os.path.join(d, f'{prop}-{i}.json')
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, tier=tier, job=j.name, **f), fh, indent=1)
            if shown < 10:
                shown += 1
                print(f'  [{j.name}] {f["what"]}: {f["detail"]}'[:600])
                print(f'VIOLATION property={prop} replay={path}')
        return 1
    if incomplete:
        # no violation found, but the budget ran out: not an answer
        print('budget ran out before the space was covered')
        return 2
    return 0


COUNTING = ('states: distinct model states reached (each compared with the implementation); '
            'transitions: single operations run on the implementation and compared with the model; '
            'traces_validated_against_impl: complete histories or operand rows whose every step and '
            'final state agreed with the model')
