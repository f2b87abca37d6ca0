"""C05: noise readouts against the complete sum of declared source densities times squared transfers."""
import random

import numpy as np

from ..core import Violation, expect
from ..dom import noise

ID = 'C05'
LEVEL = 'exploration'
QUICK = 3000
THOROUGH = 60000
RULE = ('a seeded random electrical, mechanical, signal or optical network with Johnson, declared and vacuum noise, assembled in a seeded '
        'order, every noise readout (alone and in joint readouts, in a seeded reading order) solved with every unordered set/worklist of the '
        'engine ordered by the seed; non-trivial: at least one engine decision differed from insertion order')
REAL = ['phasor.readouts.noise/AC', 'noise classes of phasor.electronics, mechanical, signals, optics', 'phasor.system', 'phasor.matrix DAG solver', 'numpy']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler', 'the user-supplied spectrum functions: closed forms of the workload']
ASSUMPTIONS = ['a voltage (displacement) fluctuation is in series with its terminal, a current fluctuation shunts it',
               'Johnson densities are the declared 4kTR, 4kT/(R w^2), 4kT phi/(w k) at 299 K',
               'vacuum enters through every open port, laser, detector and loss with h nu/2 two-sided',
               'mechanical ForceFluctuation is left out: its declared injection has no stated meaning']

gen = noise.gen
shrink = noise.shrink


def run(spec, env):
    labels, S, H, T = noise.ref(spec)
    arr = isinstance(spec['F'], list)
    adj = 1. if spec['ss'] == 1 else .5
    b = noise.build(spec)
    nr = len(spec['reads'])

    def csd(i, j, sel=None):
        k = slice(None) if sel is None else sel
        v = adj * np.sum(S[k] * H[k, i] * np.conj(H[k, j]), axis=0)
        m = np.sqrt(np.abs(H[k, i]) * np.abs(H[k, j]))
        t = adj * np.sum(S[k] * (T[k, i] * (np.abs(H[k, j]) + T[k, j]) + T[k, j] * np.abs(H[k, i]) + 1e-9 * m * m), axis=0)
        t = float(np.max(t)) * 2 if np.size(t) else 0.
        if i == j:
            v = np.real(v)
        return (v if arr else v[0]), t

    objs = {}
    if labels is not None:
        # folded lines of one source belong to one object
        for lab in set(labels):
            objs[lab] = [k for k, l in enumerate(labels) if l == lab]
    real = noise.source_objects(spec, b, set(labels or ()))
    bynobj = dict((id(o), lab) for lab, o in real.items())

    def check_sources(by, i, j, what, total):
        tot = 0
        seen = set()
        for nobj, v in by.items():
            tot = tot + v
            if labels is not None:
                lab = bynobj.get(id(nobj))
                if lab is None:
                    if nobj_is_zero(v):
                        continue
                    raise Violation('unknown-source', '%s lists a source that was never declared: %s' % (what, getattr(nobj, 'name_noise', nobj)))
                seen.add(lab)
                want, t = csd(i, j, objs[lab])
                expect('wrong-source', '%s from %r' % (what, lab), v, want, 1e-6, t + 1e-60)
        for lab in objs:
            if lab not in seen:
                want, t = csd(i, j, objs[lab])
                expect('missing-source', '%s from %r' % (what, lab), 0, want, 0, t + 1e-60)
        t = csd(i, j)[1]
        expect('breakdown', what + ' sum over sources', tot, total, 1e-9, t + 1e-60)

    def nobj_is_zero(v):
        return not np.any(np.abs(v) > 0)

    obs = []
    for i in range(nr):
        obs += [('psd', i), ('asd', i), ('by', i)] if noise.has_ac(spec['reads'][i]) else [('n', i), ('nby', i)]
    for g, idx in noise.groups(spec).items():
        for i in idx:
            for j in idx:
                obs.append(('csd', g, i, j))
        obs.append(('gby', g, idx))
    if spec['ord']:
        rr = random.Random(spec['ord'])
        rr.shuffle(obs)
        obs += [rr.choice(obs) for _ in range(rr.choice([0, 1, 3]))]
    key = 'r%do' if spec['dom'] != 'sig' else 'r%d'
    for o in obs:
        env.count('obs_' + o[0])
        if o[0] in ('psd', 'asd', 'by', 'n', 'nby'):
            i = o[1]
            want, t = csd(i, i)
            what = 'noise of read %d' % i
            if o[0] in ('n', 'nby'):
                ro = b.built['r%dn' % i]
                if o[0] == 'n':
                    expect('wrong-psd', what, ro.CSD['R', 'R'], want, 1e-6, t + 1e-60)
                else:
                    check_sources(dict((k, v['R', 'R']) for k, v in ro.CSD_by_source.items()), i, i, what, ro.CSD['R', 'R'])
                continue
            ro = b.built[key % i]
            if o[0] == 'psd':
                expect('wrong-psd', what, ro.AC_PSD, want, 1e-6, t + 1e-60)
            elif o[0] == 'asd':
                if np.any(np.asarray(want) <= 10 * t):
                    # a density that is rounding noise may come out negative
                    continue
                expect('wrong-asd', what, np.asarray(ro.AC_ASD) ** 2, want, 1e-6, t + 1e-60)
            else:
                check_sources(ro.AC_PSD_by_source, i, i, what, ro.AC_PSD)
        elif o[0] == 'csd':
            _, g, i, j = o
            want, t = csd(i, j)
            expect('wrong-csd', 'CSD of reads %d,%d' % (i, j), b.built['g%d' % g].CSD['p%d' % i, 'p%d' % j], want, 1e-6, t + 1e-60)
        else:
            _, g, idx = o
            ro = b.built['g%d' % g]
            for i in idx:
                for j in idx:
                    pk = ('p%d' % i, 'p%d' % j)
                    check_sources(dict((k, v[pk]) for k, v in ro.CSD_by_source.items()), i, j, 'CSD of reads %d,%d' % (i, j), ro.CSD[pk])
    env.count('dom_' + spec['dom'] + ('_' + spec['kind'] if spec['dom'] == 'sig' else ''))
    env.count('sources', 0 if labels is None else len(labels))
