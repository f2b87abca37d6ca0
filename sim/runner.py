"""Seeded search: batches of runs in forked workers, minimisation, fresh-process replay, evidence."""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import boot
from . import core
from . import sched as S

HERE = boot.HERE
CHECKS = ['C%02d' % i for i in range(1, 16)]


def get_check(pid):
    return importlib.import_module('sim.checks.' + pid.lower())


def fork_call(func, wall, workdir):
    """run func() in a forked child, JSON result through a file; None when it died or overran"""
    fd, path = tempfile.mkstemp(dir=workdir)
    os.close(fd)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            quiet()
            r = func()
            with open(path, 'w') as f:
                json.dump(r, f)
            code = 0
        finally:
            os._exit(code)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > wall:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.unlink(path)
            return None
        time.sleep(0.002)
    try:
        with open(path) as f:
            s = f.read()
    finally:
        os.unlink(path)
    return json.loads(s) if s else None


def quiet():
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get('SIM_VERBOSE'):
        os.dup2(fd, 2)
    os.close(fd)


def run_sequence(check, records, workdir, trace=False):
    """execute records one after the other in one fresh fork; result of the last, or of the first violation"""
    def f():
        r = None
        for i, rec in enumerate(records):
            r = core.execute(check, rec, trace=trace, wall=getattr(check, 'RUN_WALL', 60))
            r['pos'] = i
            if r['status'] != 'ok' and r['status'] != 'skip':
                break
        return r
    r = fork_call(f, 90 * len(records) + 60, workdir)
    if r is None:
        return dict(status='harness', kind='died', msg='worker died or overran')
    return r


class Minimiser(object):
    def __init__(self, check, records, kind, workdir, budget):
        self.check = check
        self.records = records
        self.kind = kind
        self.workdir = workdir
        self.deadline = time.time() + budget
        self.tried = 0

    def left(self):
        return time.time() < self.deadline

    def fails(self, records):
        self.tried += 1
        r = run_sequence(self.check, records, self.workdir, trace=True)
        if r['status'] == 'violation' and r['kind'] == self.kind and r['pos'] == len(records) - 1:
            return r
        return None

    def last(self, **kw):
        return self.records[:-1] + [dict(self.records[-1], **kw)]

    def go(self):
        res = self.fails(self.records)
        if res is None:
            return None
        # earlier runs of the same process that are needed
        i = 0
        while i < len(self.records) - 1 and self.left():
            cand = self.records[:i] + self.records[i + 1:]
            r = self.fails(cand)
            if r:
                self.records, res = cand, r
            else:
                i += 1
        # is the internal schedule needed at all?
        r = self.fails(self.last(only=[]))
        if r:
            self.records, res = self.last(only=[]), r
        # workload
        shrink = getattr(self.check, 'shrink', None)
        progress = shrink is not None
        while progress and self.left():
            progress = False
            cur = self.records[-1]
            for spec in shrink(cur['spec']):
                if not self.left():
                    break
                seeds = [cur['seed']] if cur['only'] == [] else [cur['seed']] + [S.splitmix(cur['seed'], k) for k in (1, 2)]
                for sd in seeds:
                    cand = self.records[:-1] + [dict(cur, spec=spec, seed=sd)]
                    r = self.fails(cand)
                    if r:
                        self.records, res = cand, r
                        progress = True
                        break
                if progress:
                    break
        # schedule: keep only the perturbed decisions that matter
        if self.records[-1]['only'] != [] and self.left():
            idxs = list(res.get('perturbed') or []) + [-1]
            r = self.fails(self.last(only=idxs))
            if r:
                self.records, res = self.last(only=idxs), r
                n = 2
                while len(idxs) >= 2 and self.left():
                    size = max(1, len(idxs) // n)
                    done = False
                    for k in range(0, len(idxs), size):
                        sub = idxs[:k] + idxs[k + size:]
                        r = self.fails(self.last(only=sub))
                        if r:
                            idxs, res = sub, r
                            self.records = self.last(only=sub)
                            n = max(2, n - 1)
                            done = True
                            break
                        if not self.left():
                            break
                    if not done:
                        if size == 1:
                            break
                        n = min(len(idxs), n * 2)
        return res


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    boot.load()
    check = get_check(rep['property'])
    for rec in rep['records']:
        r = core.execute(check, rec, trace=True, wall=getattr(check, 'RUN_WALL', 60))
        if r['status'] not in ('ok', 'skip'):
            break
    return rep, r


def main_replay(path):
    rep, r = replay(path)
    same = (r['status'] == 'violation' and r['kind'] == rep['kind'])
    sys.stdout.flush()
    print('replay of {0}: status={1} kind={2} digest={3} (recorded kind={4} digest={5}) -> {6}'.format(
        path, r['status'], r['kind'], r['digest'], rep['kind'], rep['digest'],
        'REPRODUCED' if same else 'not reproduced'))
    print('exact={0}'.format(same and r['digest'] == rep['digest'] and r['msg'] == rep['msg']))
    if r['msg']:
        print(r['msg'])
    if same:
        print('VIOLATION property={0} replay={1}'.format(rep['property'], path))
        return 1
    return 0


def main(pid, tier, seed, runs=None, workers=None, wall=None, keep_going=False):
    t0 = time.time()
    check = get_check(pid)
    nruns = runs or (check.QUICK if tier == 'quick' else check.THOROUGH)
    wall = wall or (420 if tier == 'quick' else 780)
    workers = workers or min(8, os.cpu_count() or 1)
    batch = getattr(check, 'BATCH', 25)
    print('seed {0} property {1} tier {2} runs {3} workers {4}'.format(seed, pid, tier, nruns, workers))
    sys.stdout.flush()
    workdir = tempfile.mkdtemp(prefix='phasorsim.')
    os.environ['TMPDIR'] = workdir
    tempfile.tempdir = workdir
    try:
        boot.load()
        prep = getattr(check, 'prepare', None)
        if prep:
            prep()
        return _main(check, pid, tier, seed, nruns, wall, workers, batch, workdir, t0, keep_going)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)


def _main(check, pid, tier, seed, nruns, wall, workers, batch, workdir, t0, keep_going):
    tstart = time.time()
    deadline = tstart + wall
    nbatches = (nruns + batch - 1) // batch
    nextb = 0
    live = {}      # pid -> (batch, path, t_started)
    results = []
    bad = []
    harness = []
    runwall = getattr(check, 'RUN_WALL', 60)

    def start(b):
        path = os.path.join(workdir, 'b%d' % b)
        p = os.fork()
        if p:
            return p, path
        code = 3
        try:
            quiet()
            with open(path, 'w') as f:
                for i in range(b * batch, min(nruns, (b + 1) * batch)):
                    f.write(json.dumps(dict(start=i)) + '\n')
                    f.flush()
                    rec = core.make_record(check, seed, i, tier)
                    r = core.execute(check, rec, wall=runwall)
                    if i < 3:
                        r['spec'] = rec['spec']
                    f.write(json.dumps(r) + '\n')
                    f.flush()
                    if r['status'] in ('violation', 'harness'):
                        break
            code = 0
        finally:
            os._exit(code)

    def collect(b, path, died):
        last = None
        with open(path) as f:
            lines = f.read().splitlines()
        os.unlink(path)
        for l in lines:
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if 'start' in r:
                last = r['start']
                continue
            last = None
            results.append(r)
            if r['status'] == 'violation':
                bad.append((r['index'], b, r))
            elif r['status'] == 'harness':
                harness.append(r)
        if last is not None:
            # died in the middle of run `last`
            r = dict(index=last, status='violation', kind='died',
                     msg='the process running this simulation was ended or stopped making progress', counts={}, faults={},
                     decisions=0, nperturbed=0, digest='0', simsteps=0)
            results.append(r)
            bad.append((last, b, r))

    capped = False
    while nextb < nbatches or live:
        while nextb < nbatches and len(live) < workers and (keep_going or not (bad or harness)) and not capped:
            p, path = start(nextb)
            live[p] = (nextb, path, time.time())
            nextb += 1
        if not live:
            break
        p, st = os.waitpid(-1, os.WNOHANG)
        if p:
            if p in live:
                b, path, _ = live.pop(p)
                collect(b, path, st)
            continue
        now = time.time()
        if now > deadline:
            capped = True
        for p, (b, path, ts) in list(live.items()):
            if now - ts > runwall * 3 + 60 + (0 if not capped else -30):
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                live.pop(p)
                collect(b, path, 9)
        time.sleep(0.003)
        if (bad or harness) and not keep_going:
            nextb = nbatches

    wall_search = time.time() - tstart
    known = known_findings(pid)
    found_known = {}
    for r in results:
        for k in (r.get('finding') or []):
            found_known[k] = found_known.get(k, 0) + 1
    ev = evidence(check, pid, tier, seed, results, wall_search, t0, nruns, workers)

    code = 0
    if bad:
        bad.sort(key=lambda x: x[0])
        if keep_going:
            kinds = {}
            for i, b, r in bad:
                kinds.setdefault(r['kind'], []).append(i)
            print('violations by kind:', {k: (len(v), v[:5]) for k, v in kinds.items()})
        code = report(check, pid, tier, seed, bad[0], batch, workdir, ev)
    elif harness:
        for h in harness[:3]:
            print('HARNESS ERROR in run {0}: {1}\n{2}'.format(h['index'], h['kind'], h['msg']))
        code = 2
    else:
        done = sum(1 for r in results if r['status'] == 'ok')
        for k in known:
            print('KNOWN-FINDING: property={0} {1}'.format(pid, k['what']))
        if done < max(10, nruns // 10):
            print('only {0} of {1} runs completed: no verdict'.format(done, nruns))
            code = 4
        else:
            print('property {0} held on {1} runs ({2} skipped) in {3:.1f} s'.format(
                pid, done, len(results) - done, time.time() - t0))
    ev['wall_s'] = round(time.time() - t0, 2)
    evdir = os.environ.get('SIM_EVIDENCE_DIR') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return code


def report(check, pid, tier, seed, badrun, batch, workdir, ev):
    idx, b, r = badrun
    print('violation in run {0}: {1}\n{2}'.format(idx, r['kind'], r['msg']))
    sys.stdout.flush()
    rec = core.make_record(check, seed, idx, tier)
    first = b * batch
    history = [core.make_record(check, seed, i, tier) for i in range(first, idx + 1)]
    best = None
    for records in ([rec], history):
        m = Minimiser(check, records, r['kind'], workdir, 100 if tier == 'quick' else 200)
        res = m.go()
        if res is not None:
            best = (m.records, res, m.tried)
            break
    outdir = os.environ.get('SIM_REPLAY_DIR') or os.path.join(HERE, 'replays')
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, '{0}-{1}-{2}.json'.format(pid, seed, idx))
    if best is None:
        records, res = history, dict(r, trace=None, log=None)
        note = 'observed once; did not recur when re-run (the code under test depends on something outside the simulator)'
    else:
        records, res, tried = best
        note = 'minimised in {0} executions'.format(tried)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, verif_seed=seed, run=idx, kind=res['kind'], msg=res['msg'], digest=res['digest'],
                       note=note, faults=res.get('faults'), schedule=res.get('trace'), log=res.get('log'),
                       records=records), f, indent=1)
    p = subprocess.run([boot.PY, '-m', 'sim.main', 'replay', path], cwd=HERE, env=boot.env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    tail = p.stdout.strip().splitlines()
    print('minimised: {0}'.format(note))
    print('  kind {0}: {1}'.format(res['kind'], (res['msg'] or '')[-1200:]))
    spec = json.dumps(records[-1]['spec'])
    print('  workload: {0}'.format(spec[:2000]))
    print('  perturbed decisions: {0}'.format(len(res.get('trace') or [])))
    print('  fresh-process replay: {0}'.format([l for l in tail if l.startswith('exact=') or l.startswith('replay of')][-2:]))
    print('VIOLATION property={0} replay={1}'.format(pid, path))
    ev['violations'] = 1
    ev['coverage']['violation'] = dict(run=idx, kind=r['kind'], replay=path)
    return 1


def evidence(check, pid, tier, seed, results, wall, t0, nruns, workers):
    ok = [r for r in results if r['status'] == 'ok']
    counts, faults = {}, {}
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
    nontriv = [r for r in ok if r['nperturbed'] > 0 or r['faults'] or r['simsteps'] > 0]
    distinct = set((r['digest'], json.dumps(sorted(r['counts'].items())), json.dumps(sorted(r['faults'].items()))) for r in nontriv)
    samples = [dict(run=r['index'], decisions=r['decisions'], perturbed=r['nperturbed'], digest=r['digest'],
                    counts=r['counts'], faults=r['faults'], spec=r.get('spec')) for r in sorted(ok, key=lambda r: r['index'])[:3]]
    decisions = sum(r['decisions'] for r in results)
    cov = dict(
        evaluations=len(results),
        distinct_nontrivial=len(distinct),
        rule=check.RULE,
        samples=samples,
        runs_planned=nruns,
        skipped=sum(1 for r in results if r['status'] == 'skip'),
        runs_per_hour=int(len(results) / max(wall, 1e-3) * 3600),
        seeds_per_hour=int(len(results) / max(wall, 1e-3) * 3600),
        simulated_time=dict(unit='scheduler decisions plus thread steps (the code has no clock)',
                            decisions=decisions, perturbed=sum(r['nperturbed'] for r in results),
                            thread_steps=sum(r['simsteps'] for r in results)),
        fault_kinds_fired=faults,
        interleavings=dict(measure='distinct digests of (decision index, permutation) sequences and thread switches',
                           distinct=len(set(r['digest'] for r in results))),
        probes=counts,
        components=dict(real=check.REAL, stub=check.STUB),
        workers=workers,
    )
    return dict(property=pid, tier=tier, seed=seed, level=check.LEVEL, coverage=cov, assumptions=check.ASSUMPTIONS, wall_s=0, violations=0)
