"""The one source of choice in a simulated run.

A run is a pure function of (workload spec, decision seed, enabled decision set, faults).
Every iteration over, or pop from, an unordered set inside phasor is one *decision*; decision i of
a run with seed s always gets the same permutation, drawn from splitmix64(s, i), so a trace can be
minimised by restricting the set of decision indices that are perturbed: all others use plain
insertion order.
"""
import random
import sys

MASK = (1 << 64) - 1


def splitmix(*vals):
    x = 0x9E3779B97F4A7C15
    for v in vals:
        x = (x ^ (v & MASK)) & MASK
        x = (x + 0x9E3779B97F4A7C15) & MASK
        z = x
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
        x = z ^ (z >> 31)
    return x


def strseed(s):
    h = 0xcbf29ce484222325
    for b in s.encode('utf8'):
        h = ((h ^ b) * 0x100000001b3) & MASK
    return h


class StepLimit(BaseException):
    """the run used more decisions than the bound allows: no progress"""


class Sched(object):
    def __init__(self, seed, policy, only=None, limit=4000000, trace=False):
        self.seed = seed
        self.policy = policy          # dict(p=probability*1000, modes=[...])
        self.only = only              # None = every decision index may be perturbed
        self.limit = limit
        self.n = 0                    # decisions taken
        self.nperturbed = 0
        self.perturbed = []           # indices whose order differed from insertion order
        self.digest = 0xcbf29ce484222325
        self.trace = [] if trace else None
        self.p = policy.get('p', 0)
        self.modes = policy.get('modes', ('shuffle',))

    def order(self, items, what='iter'):
        """items: list; returns list in the order the scheduler decides"""
        n = len(items)
        if n < 2:
            return items
        i = self.n
        self.n = i + 1
        if i >= self.limit:
            raise StepLimit("more than {0} scheduling decisions".format(self.limit))
        if self.only is not None and i not in self.only:
            return items
        h = splitmix(self.seed, i)
        if self.p < 1000 and (h >> 40) % 1000 >= self.p:
            return items
        mode = self.modes[(h >> 20) % len(self.modes)]
        if mode == 'reverse':
            out = items[::-1]
            sig = 1
        elif mode == 'rotate':
            k = 1 + h % (n - 1)
            out = items[k:] + items[:k]
            sig = k + 10
        elif mode == 'last':
            out = [items[-1]] + items[:-1]
            sig = 2
        else:
            out = list(items)
            random.Random(h).shuffle(out)
            sig = h & 0xffff
        self.nperturbed += 1
        if len(self.perturbed) < 200000:
            self.perturbed.append(i)
        self.digest = ((self.digest ^ (i * 65537 + sig * 31 + n)) * 0x100000001b3) & MASK
        if self.trace is not None and len(self.trace) < 400:
            f = sys._getframe(2)
            while f is not None and '/sim/' in f.f_code.co_filename:
                f = f.f_back
            where = '?' if f is None else '{0}:{1} {2}'.format(
                f.f_code.co_filename.split('/repo/')[-1], f.f_lineno, f.f_code.co_name)
            self.trace.append(dict(decision=i, kind=what, n=n, mode=mode, at=where))
        return out

    def pick(self, items):
        n = len(items)
        if n < 2:
            return items[0]
        return self.order(items, 'pop')[0]


class _Cur(object):
    sched = None
    idmap = None
    idhold = None


CUR = _Cur()


def begin(sched):
    CUR.sched = sched
    CUR.idmap = dict()
    CUR.idhold = []


def end():
    CUR.sched = None
    CUR.idmap = None
    CUR.idhold = None


_id = id


def sim_id(obj):
    """id() as seen by phasor: memory addresses decided by the seed instead of the allocator"""
    m = CUR.idmap
    if m is None:
        return _id(obj)
    k = _id(obj)
    v = m.get(k)
    if v is None:
        CUR.idhold.append(obj)
        s = CUR.sched
        base = len(m)
        if s is not None and s.p and (s.only is None or -1 in s.only):
            v = (splitmix(s.seed, 77777, base) >> 16) * 65536 + base
        else:
            v = 65536 + base
        m[k] = v
    return v
