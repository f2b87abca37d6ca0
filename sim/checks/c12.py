"""C12: several independent systems in one process: after one another, interleaved, nested in callbacks, in threads."""
import contextlib
import random

import numpy as np

from .. import threads
from ..core import Skip, Violation
from ..dom import common, work
from ..intr import INJECTED, KINDS, Points
from .c06 import freeze, same

ID = 'C12'
LEVEL = 'exploration'
QUICK = 900
THOROUGH = 20000
RUN_WALL = 200
RULE = ('2-3 seeded networks of any domain, built, solved, read and regenerated in one process: by threads preempted at seeded lines of the package, with their '
        'operations interleaved in seeded order, or one inside another\'s user-supplied functions; some of them are cut short by injected exceptions, cannot be solved, '
        'or use other solvers and conventions; every value of every system is compared with its own reference; non-trivial: at least two systems were read')
REAL = ['phasor (all of the packages used to build and read a system)', 'declarative bunches and memoized properties', 'numpy', 'CPython threads for stacks']
STUB = ['thread scheduling: baton scheduler with preemption at lines of the package', 'iteration order of set/frozenset and id(): seeded scheduler', 'exceptions: seeded fault plan']
ASSUMPTIONS = ['wanted values come from the reference models of C01-C05 with their tolerances',
               'preemption granularity: Python source lines of phasor; numpy calls and other libraries are atomic']
SOLVERS = ['loop_LUQ', 'scisparse', 'scisparse_superLU', 'loop_fast_unstable']


LIM = dict(threads=24, nested=100, steps=100)


def gen(rng, tier):
    mode = rng.choice(['threads', 'threads', 'steps', 'steps', 'nested'])
    n = rng.choice([2, 2, 3])
    parts = []
    for k in range(n):
        doms = ['sig', 'elec'] if mode == 'nested' and k == 0 else None
        for _ in range(8):
            w = work.gen(rng, tier, noisy=.9 if mode == 'nested' and k == 0 else .3, doms=doms)
            if cost(w) <= LIM[mode]:
                break
        parts.append(w)
    if rng.random() < .25:
        # the same network twice, with other values
        parts[-1] = twin(rng, parts[0])
    out = dict(mode=mode, parts=parts, seed=rng.getrandbits(24), p=rng.choice([.1, .5, 2, 10]), regen=[rng.random() < .25 for _ in parts], built=rng.random() < .3)
    # somebody else's trouble
    out['bad'] = rng.choice([None, None, 'cut', 'cut', 'user', 'solver', 'conv'])
    out['hit'] = [rng.choice(sorted(KINDS)), round(rng.random(), 4)]
    out['solver'] = rng.choice(SOLVERS)
    return out


def twin(rng, w):
    import copy
    w = copy.deepcopy(w)
    F = w['s']['F']
    g = round(10 ** rng.uniform(-.5, .5), 3)
    w['s']['F'] = [f * g for f in F] if isinstance(F, list) else F * g
    w['s']['asm'] = rng.getrandbits(30)
    if 'ss' in w['s']:
        w['s']['ss'] = 3 - w['s']['ss']
    return w


def shrink(spec):
    ps = spec['parts']
    for k in range(len(ps)):
        if len(ps) > 2:
            yield dict(spec, parts=ps[:k] + ps[k + 1:], regen=spec['regen'][:k] + spec['regen'][k + 1:])
    if spec['bad']:
        yield dict(spec, bad=None)
    if any(spec['regen']):
        yield dict(spec, regen=[False] * len(ps))
    for k in range(len(ps)):
        for s in work.shrink(ps[k]):
            yield dict(spec, parts=ps[:k] + [s] + ps[k + 1:])


class Part(object):
    """one system and the operations its user performs on it"""
    def __init__(self, k, spec, w, env, regen, rr):
        self.k, self.spec, self.env = k, spec, env
        self.W = w
        self.names = w.names()
        rr.shuffle(self.names)
        self.names = self.names[:4]
        self.kept = []
        self.b = None
        self.regen = regen

    def steps(self):
        """the operations, one at a time"""
        if self.b is None:
            self.b = work.build(self.spec)
        yield 'build'
        for name in self.names:
            self.read(name, self.b)
            yield 'read'
        if self.regen:
            s2 = self.b.sys.regenerate()
            s2.max_N = self.b.sys.max_N
            yield 'regen'
            bb = work.reader(self.spec, work.names_of(self.b), s2)
            for name in self.names:
                self.read(name, bb)
                yield 'read'
        for name in self.names[:2]:
            self.read(name, self.b)
            yield 'read'
        for name, v, was in self.kept:
            if not same(v, was):
                raise Violation('mutated', 'the result of system %d for %r changed afterwards' % (self.k, name))

    def read(self, name, b):
        v = work.observe(self.spec, b, name)
        self.W.check(name, v, b, 'system %d (%s): observation %r' % (self.k, self.spec['dom'], name))
        self.kept.append((name, v, freeze(v)))
        self.env.count('reads')


def cost(w):
    s = w['s']
    return work.lines(w) * (4 if w['dom'] == 'conv' or w['dom'] == 'optic' and s['shifts'] else 1) * len(s['els']) * (2 if w['noisy'] else 1)


def troubled(spec, env, w, rr):
    """a system of somebody else's which fails or differs in its conventions: a generator of its operations, whose failures nobody else notices"""
    kind, frac = spec['hit']
    bad = spec['bad']
    kw = {}
    if bad == 'solver':
        kw['solver_name'] = spec['solver']
    if bad == 'conv':
        kw['freq_order_max_default'] = 1
        kw['symbolic'] = False
    at = 0
    b = work.build(w, system_kw=kw)
    yield 'build'
    names = work.Want(w).names()
    rr.shuffle(names)
    for k, name in enumerate(names[:3]):
        pos = None
        if bad == 'cut' and k == (int(frac * 1000) % 2):
            pos = int(10 ** (1 + 4.5 * frac))
        try:
            with (Points(pos, kind) if pos is not None else contextlib.nullcontext()):
                work.observe(w, b, name)
        except INJECTED:
            env.fault(kind)
        except Exception:
            env.count('troubled_raised')
        yield 'read'


def run(spec, env):
    parts = spec['parts']
    if any(cost(p) > LIM[spec['mode']] for p in parts):
        raise Skip('too expensive')
    rr = random.Random(spec['seed'])
    sys_ = [Part(k, p, work.Want(p), env, spec['regen'][k], rr) for k, p in enumerate(parts)]
    sys_ = [p for p in sys_ if p.names]
    if len(sys_) < 2:
        raise Skip('nothing to read')
    if spec['built']:
        for p in sys_:
            p.b = work.build(p.spec)
    env.count('mode_' + spec['mode'])
    trouble = None
    if spec['bad'] and spec['mode'] != 'threads':
        trouble = troubled(spec, env, parts[-1], rr)
        env.count('bad_' + spec['bad'])
    if spec['mode'] == 'steps':
        active = [p.steps() for p in sys_] + ([trouble] if trouble else [])
        while active:
            g = rr.choice(active)
            # sometimes several operations of the same system
            for _ in range(rr.choice([1, 1, 2, 5])):
                try:
                    next(g)
                except StopIteration:
                    active.remove(g)
                    break
    elif spec['mode'] == 'nested':
        outer = sys_[0]
        inner = [p.steps() for p in sys_[1:]] + ([trouble] if trouble else [])
        state = [0, False]

        def user():
            state[0] += 1
            if state[1] or not inner:
                return
            if rr.random() < .5 or state[0] == 1:
                # the user's function works on systems of its own
                state[1] = True
                try:
                    g = rr.choice(inner)
                    for _ in range(rr.choice([1, 1, 3])):
                        try:
                            next(g)
                            env.count('nested_steps')
                        except StopIteration:
                            inner.remove(g)
                            break
                finally:
                    state[1] = False
                if spec['bad'] == 'user' and state[0] == 2:
                    env.fault('user_' + spec['hit'][0])
                    raise KINDS[spec['hit'][0]]('injected in user function')
        common.USER[0] = user
        try:
            for _ in outer.steps():
                pass
        except INJECTED:
            # the outer system is the one that failed: what it says from now on is C08's business
            env.count('outer_failed')
        finally:
            common.USER[0] = None
        for g in inner:
            for _ in g:
                pass
    else:
        baton = threads.MonBaton(env.sched, spec['p'])

        def body(p):
            def go():
                for _ in p.steps():
                    pass
            return go
        for p in sys_:
            baton.spawn('system %d' % p.k, body(p))
        if spec['bad'] in ('cut', 'user', 'conv'):
            env.count('bad_thread')
            t = parts[-1]
            kind, frac = spec['hit']

            def failing():
                for _ in troubled(dict(spec, bad='conv'), env, t, rr):
                    pass
            baton.spawn('troubled', failing)
            baton.stop = (len(baton.threads) - 1, int(10 ** (2 + 3.5 * frac)), KINDS[kind]('injected'))
        baton.run()
        env.simsteps += baton.ev
        env.count('switches', baton.switches)
        for t in baton.threads:
            if t.exc is not None and not (t.name == 'troubled' and isinstance(t.exc, INJECTED)):
                raise t.exc
    for p in sys_:
        if spec['mode'] != 'nested' or p is not sys_[0]:
            env.count('systems')
