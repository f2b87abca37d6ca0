"""C08: evaluations cut short at any point; what is asked afterwards is right or refused."""
import contextlib
import random

import numpy as np

from ..core import Skip, expect
from ..dom import common, work
from ..intr import INJECTED, KINDS, Points

ID = 'C08'
LEVEL = 'exploration'
QUICK = 900
THOROUGH = 40000
RUN_WALL = 200
RULE = ('a seeded network of any domain, its readouts requested in seeded order; 1-3 of the requests (setup, solution, readout or noise evaluation, regeneration) '
        'are cut short by an exception raised at a seeded line or bytecode instruction executed by the package, or from inside a user-supplied function; '
        'every later value must be the reference value, or the request must raise; non-trivial: at least one injected exception reached the caller')
REAL = ['phasor.readouts', 'phasor.system (setup, ports, matrix, solver algorithms, lazy caches)', 'phasor.base', 'phasor.matrix DAG solver', 'numpy', 'element libraries of all domains']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler', 'point and kind of the exception: seeded fault plan']
ASSUMPTIONS = ['wanted values come from the reference models of C01-C05 with their tolerances',
               'an exception is raised before a line or instruction of the package itself; inside library calls it stands before the call']


def gen(rng, tier):
    w = work.gen(rng, tier, noisy=.4)
    w['order'] = rng.getrandbits(24)
    n = rng.choice([1, 1, 2, 3])
    w['hits'] = []
    for _ in range(n):
        kind = rng.choice(sorted(KINDS))
        user = rng.random() < .15
        # which request of the history, how far into it
        w['hits'].append([rng.choice([0, 0, 0, 0, 1, 1, 2, rng.randrange(12)]), kind, round(rng.random(), 4) if rng.random() < .8 else round(1 - rng.random() ** 3, 4), user,
                          [rng.choice(['function', 'rare', 'rare']), round(rng.random(), 4)] if rng.random() < .8 else None])
    w['instr'] = rng.random() < .25
    w['regen'] = rng.random() < .2
    w['again'] = rng.choice(['now', 'now', 'later'])
    return w


def shrink(spec):
    for k in range(len(spec['hits'])):
        if len(spec['hits']) > 1:
            yield dict(spec, hits=spec['hits'][:k] + spec['hits'][k + 1:])
    for s in work.shrink(spec):
        yield s
    if spec['regen']:
        yield dict(spec, regen=False)
    if spec['order']:
        yield dict(spec, order=0)


def run(spec, env):
    if work.lines(spec) > 25 or (spec['noisy'] and spec['dom'] == 'optic' and spec['s']['shifts'] and len(spec['s']['els']) > 8):
        raise Skip('too expensive')
    W = work.Want(spec)
    names = W.names()
    if not names:
        raise Skip('nothing to read')
    if spec['order']:
        random.Random(spec['order']).shuffle(names)
    names = names[:6]

    calls = [0, None, None]
    instr = spec['instr'] and not (spec['noisy'] and spec['dom'] == 'optic' or spec['dom'] == 'conv' and len(spec['s']['els']) > 8)

    def user():
        calls[0] += 1
        if calls[1] is not None and calls[0] > calls[1]:
            calls[1] = None
            raise KINDS[calls[2]]('injected in user function')

    def request(b, name, at=None, kind='interrupt', userat=None, func=None):
        """returns (Points, number of user calls, status, value)"""
        calls[:] = [0, userat, kind]
        p = Points(at, kind, instr, func)
        try:
            with (p if at is not None else contextlib.nullcontext()):
                v = work.observe(spec, b, name)
        except INJECTED as e:
            env.count('cut_' + (p.where or 'user').split(':')[0])
            return p, calls[0], 'cut', p.where or 'user function'
        except Exception as e:
            return p, calls[0], 'raised', e
        finally:
            calls[1] = None
        return p, calls[0], 'value', v

    common.USER[0] = user
    try:
        # an undisturbed run, to know how long each request takes
        b0 = work.build(spec)
        size = []
        aimed = set(h[0] % len(names) for h in spec['hits'])
        for k, name in enumerate(names[:max(aimed) + 1]):
            p, u, st, v = request(b0, name, 10 ** 12 if k in aimed else None)
            if st == 'raised':
                raise v
            W.check(name, v, b0, 'undisturbed observation %r' % (name,))
            size.append((p.n, u, p.per))
        b = work.build(spec)
        hits = {}
        for op, kind, frac, usr, fn in spec['hits']:
            hits.setdefault(op % len(names), []).append((kind, frac, usr, fn))
        fired = []
        bb = b

        def one(name, hit=None, t=None):
            at = ua = func = None
            kind = 'interrupt'
            if hit is not None:
                kind, frac, usr, fn = hit
                if usr and t[1]:
                    ua = int(frac * t[1])
                elif fn is not None and t[2]:
                    # a point within one of the functions at work, each as likely as any other or those which do little preferred
                    fs = sorted(t[2])
                    w = np.cumsum([1. if fn[0] == 'function' else 1. / t[2][f] for f in fs])
                    func = fs[min(int(np.searchsorted(w, fn[1] * w[-1])), len(fs) - 1)]
                    at = int(frac * t[2][func])
                else:
                    at = int(frac * t[0])
            p, u, st, v = request(bb, name, at, kind, ua, func)
            if st == 'cut':
                fired.append('%s in %r at %s' % (kind, name, v))
                env.fault(('user_' if ua is not None else '') + kind)
                env.log.append('%s in %r at %s' % (kind, name, v))
            elif st == 'raised':
                if not fired:
                    raise v
                env.count('refused')
                env.log.append('%r refused: %s' % (name, type(v).__name__))
            else:
                W.check(name, v, bb, 'observation %r after %s' % (name, '; '.join(fired) or 'nothing'))
                env.count('answered_after' if fired else 'answered_before')
            return st

        later = []
        for k, name in enumerate(names):
            hs = hits.get(k, [])
            for h in hs:
                one(name, h, size[k])
            if hs and spec['again'] == 'later':
                later.append(name)
            else:
                one(name)
        if not fired:
            env.count('not_fired')
        rest = later + [n for n in names if n not in later]
        for name in rest:
            one(name)
        if fired and getattr(b.sys, 'solver', None) is not None and spec['dom'] != 'mech':
            # the solver itself, which outlives an evaluation cut short
            try:
                sol = b.sys.solver.driven_solution_get('perturbative').solution
            except Exception:
                env.count('solver_refused')
            else:
                ref = dict((str(k), v) for k, v in b0.sys.solver.driven_solution_get('perturbative').solution.items())
                big = max([np.max(np.abs(v)) for v in ref.values()] or [0])
                for k, v in sol.items():
                    expect('wrong-solution', 'solution at %s after %s' % (k, '; '.join(fired)), v, ref.get(str(k), 0), 1e-3, 1e-6 * big)
                env.count('solver_asked')
        if spec['regen'] and fired:
            try:
                nsys = b.sys.regenerate()
            except Exception as e:
                env.count('regen_refused')
                return
            nsys.max_N = b.sys.max_N
            bb = work.reader(spec, work.names_of(b), nsys)
            env.count('regenerated')
            for name in names:
                one(name)
    finally:
        common.USER[0] = None
