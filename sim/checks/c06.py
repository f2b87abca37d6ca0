"""C06: histories of readout requests on one system, and the same readout alone in a system of its own."""
import contextlib
import io
import random

import numpy as np

from ..core import Violation, expect
from ..dom import noise, work

ID = 'C06'
LEVEL = 'exploration'
QUICK = 2500
THOROUGH = 50000
RULE = ('a seeded network of any domain with several DC, AC and noise readouts; a seeded history of readout requests (subsets, repeats, duplicates '
        'under other port sets, solver-level solution and print requests) followed by the same readout alone in its own system, with every unordered '
        'set/worklist of the engine ordered by the seed; non-trivial: the history has at least two requests')
REAL = ['phasor.readouts', 'phasor.system (ports, matrix, solver algorithms, lazy caches)', 'phasor.base', 'phasor.matrix DAG solver', 'numpy', 'element libraries of all domains']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['wanted values come from the reference models of C01-C05 with their tolerances',
               'a result handed out is compared with a deep copy taken when it was handed out']


def gen(rng, tier):
    w = work.gen(rng, tier, noisy=.6)
    w['hist'] = rng.getrandbits(24)
    w['n'] = rng.choice([2, 4, 8, 12])
    w['dup'] = rng.random() < .6
    w['sys'] = rng.random() < .6
    return w


def shrink(spec):
    for s in work.shrink(spec):
        yield s
    if spec['n'] > 1:
        yield dict(spec, n=spec['n'] // 2)
    for k in ('dup', 'sys'):
        if spec[k]:
            yield dict(spec, **{k: False})
    if spec['hist']:
        yield dict(spec, hist=0)


def freeze(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return dict((k, freeze(x)) for k, x in v.items())
    return v


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and len(a) == len(b) and all(k in b and same(x, b[k]) for k, x in a.items())
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all((np.asarray(a) == np.asarray(b)) | (np.asarray(a) != np.asarray(a))))
    return a is b or a == b or (a != a and b != b)


def dup_hook(spec, rr):
    """further readouts of the same quantities under port sets of their own"""
    from phasor import readouts
    made = {}

    def extra(decls, acts, module):
        for i, r in enumerate(spec['s']['reads']):
            if rr.random() < .5 or r['k'] == 'OL':
                continue
            key = work.rkey(spec, i)
            ps = rr.choice(['DC', 'AC', 'P%d' % i, 'shared'])

            def mk(built, key=key, ps=ps):
                ro = built[key]
                if type(ro) is readouts.ACReadout and ro.portDrv is ro.portD:
                    return readouts.ACReadout(portD=ro.portD, portN=ro.portN, port_set=ps, include_noise=False)
                if type(ro) is readouts.DCReadout:
                    return readouts.DCReadout(port=ro.port, port_set=ps)
                return None
            if any(d[0] == key for d in decls):
                decls.append((key + 'dup', (key,), mk))
                made[i] = key + 'dup'
    return extra, made


def run(spec, env):
    W = work.Want(spec)
    rr = random.Random(spec['hist'])
    extra, dups = dup_hook(spec, rr) if spec['dup'] else (None, {})
    b = work.build(spec, extra=extra)
    names = W.names()
    from phasor import readouts
    kept = []

    def keep(what, v):
        kept.append((what, v, freeze(v)))

    def request(name):
        if name[0] == 'dup':
            o = b.built[dups[name[1]]]
            v = o.DC_readout if isinstance(o, readouts.DCReadout) else o.AC_sensitivity
            W.check(('r', name[1]), v, b, 'duplicate of read %d under port set %r' % (name[1], o.port_set))
            keep(name, v)
        elif name[0] == 'sol':
            s = b.sys.solution
            if name[1] == 'driven':
                keep(name, dict(s.driven_solution_get(name[2]).solution.items()))
            elif name[1] == 'coupling':
                keep(name, dict(s.coupling_solution_get(drive_set=name[2], readout_set=name[3]).coupling_matrix_inv))
            elif name[1] == 'print':
                with contextlib.redirect_stdout(io.StringIO()):
                    s.coupling_matrix_print(drive_set='AC_sensitivities', readout_set='readouts')
                    s.coupling_matrix_inv_print(drive_set='AC_sensitivities', readout_set='readouts')
                    s.source_vector_print()
        else:
            v = work.observe(spec, b, name)
            W.check(name, v, b, 'observation %r after %d requests' % (name, len(kept)))
            keep(name, v)
        env.count('req_' + name[0])

    ops = list(names) + [('dup', i) for i in dups if b.built.get(dups[i]) is not None]
    if spec['sys']:
        ops += [('sol', 'driven', 'perturbative')]
        if any(r.get('d') == 'DC' or r['k'] in ('DC', 'K') for r in spec['s']['reads']) or spec['dom'] in ('sig', 'optic', 'conv'):
            # (a circuit nobody reads at DC need not have a DC solution)
            ops += [('sol', 'driven', q) for q in ('DC', 'readouts', 'DC_readouts', 'all', 'AC_sensitivities')] + [('sol', 'coupling', 'all', 'readouts')]
        ops += [('sol', 'coupling', d, q) for d, q in (('AC', 'AC'), ('AC_sensitivities', 'AC_sensitivities'), ('noise', 'AC noise'))]
        ops += [('sol', 'print')]
    hist = [rr.choice(ops) for _ in range(spec['n'])]
    if rr.random() < .5:
        # every readout exactly once, in any order
        rest = list(names)
        rr.shuffle(rest)
        hist = hist + rest if rr.random() < .5 else rest + hist
    env.count('history', len(hist))
    for name in hist:
        request(name)
    for what, v, was in kept:
        if not same(v, was):
            raise Violation('mutated', 'the result handed out for %r changed afterwards' % (what,))
    # asked again, each result is what it was
    for what, v, was in list(kept):
        if what[0] in ('sol', 'dup'):
            continue
        W.check(what, work.observe(spec, b, what), b, 'observation %r asked again at the end' % (what,))
    # alone in a system of its own
    picks = [n for n in hist if n[0] not in ('sol', 'dup')] or names
    if not picks:
        return
    name = rr.choice(picks)
    i = name[1] if name[0] not in ('csd', 'gby') else name[2]
    alone = work.solo_name(name, i)
    if alone is None:
        return
    so = work.solo(spec, i)
    b2 = work.build(so)
    v = work.observe(so, b2, alone)
    # source objects belong to the other system
    W.check(name, v, b2, 'observation %r in a system holding only it' % (name,))
    env.count('solo')
