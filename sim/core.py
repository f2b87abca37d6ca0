"""Run execution: one spec -> one deterministic simulated execution."""
import json
import math
import random
import signal
import sys
import traceback

import numpy as np

from . import boot
from . import sched as S


class Violation(Exception):
    """the property does not hold on this run"""
    def __init__(self, kind, msg):
        super().__init__(kind + ': ' + msg)
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """the generated workload is outside the property's domain (e.g. singular); counted, never hidden"""


class Hang(BaseException):
    pass


class Env(object):
    def __init__(self, sched, record):
        self.sched = sched
        self.record = record
        self.counts = {}
        self.faults = {}
        self.simsteps = 0
        self.log = []
        self.finding = None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def rng(self, *salt):
        """an independent stream; never shared with the schedule"""
        return random.Random(S.splitmix(self.record['seed'], *[S.strseed(str(s)) for s in salt]))


def make_policy(rng):
    p = rng.choice([0, 60, 300, 1000, 1000])
    modes = rng.choice([['shuffle'], ['shuffle'], ['reverse'], ['last', 'shuffle'], ['rotate', 'shuffle'], ['last'],
                        ['reverse', 'shuffle', 'rotate', 'last']])
    return dict(p=p, modes=modes)


def make_record(check, base_seed, idx, tier):
    seed = S.splitmix(base_seed, S.strseed(check.ID), idx)
    rng = random.Random(seed)
    policy = make_policy(rng)
    spec = check.gen(rng, tier)
    return dict(property=check.ID, index=idx, seed=seed, policy=policy, only=None, spec=spec)


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.REPO + '/phasor'):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Hang('run exceeded its wall limit')


def execute(check, record, trace=False, wall=60):
    """-> result dict; never raises"""
    sched = S.Sched(record['seed'], record['policy'],
                    only=None if record['only'] is None else frozenset(record['only']),
                    limit=getattr(check, 'STEP_LIMIT', 4000000), trace=trace)
    env = Env(sched, record)
    random.seed(record['seed'])
    np.random.seed(record['seed'] % (2 ** 32))
    out = dict(index=record.get('index'), status='ok', kind=None, msg=None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    S.begin(sched)
    try:
        check.run(record['spec'], env)
    except Violation as e:
        out.update(status='violation', kind=e.kind, msg=e.msg)
    except Skip as e:
        out.update(status='skip', msg=str(e))
    except Hang:
        out.update(status='violation', kind='no-progress', msg='the run did not finish within {0} s of wall time'.format(wall))
    except S.StepLimit as e:
        out.update(status='violation', kind='no-progress', msg=str(e))
    except BaseException as e:
        tb = traceback.format_exc()
        if in_repo(e.__traceback__):
            out.update(status='violation', kind='crash:' + type(e).__name__, msg=tb[-1500:])
        else:
            out.update(status='harness', kind=type(e).__name__, msg=tb[-4000:])
    finally:
        S.end()
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    out.update(decisions=sched.n, nperturbed=sched.nperturbed, digest='%016x' % sched.digest,
               counts=env.counts, faults=env.faults, simsteps=env.simsteps)
    if trace:
        out['trace'] = sched.trace
        out['perturbed'] = sched.perturbed
        out['log'] = env.log[:400]
    if env.finding:
        out['finding'] = env.finding
    return out


# ---- numeric comparison shared by the oracles -------------------------------------------------

def close(a, b, rtol=1e-6, atol=0.0):
    """a, b scalars or arrays, broadcastable; NaN never equal"""
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    try:
        a, b = np.broadcast_arrays(a, b)
    except ValueError:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def show(x):
    a = np.asarray(x)
    if a.ndim == 0:
        return repr(a.item())
    return repr(a.tolist() if a.size <= 4 else [a.flat[0], a.flat[-1], 'shape %s' % (a.shape,)])


def expect(kind, what, got, want, rtol=1e-6, atol=0.0):
    if not close(got, want, rtol, atol):
        raise Violation(kind, '{0}: got {1}, expected {2}'.format(what, show(got), show(want)))


def rnd(rng, lo, hi):
    """log-uniform, rounded so specs print short"""
    v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return float('%.4g' % v)
