"""C14: frequency conversion against the coupled wave equations, whatever the order of assembly and processing."""
import numpy as np

from ..core import Skip, Violation, expect
from ..dom import conv, noise, work

ID = 'C14'
LEVEL = 'exploration'
QUICK = 600
THOROUGH = 16000
RUN_WALL = 120
RULE = ('a seeded network of crystals, acousto-optic cells, modulators, harmonic mirrors and detectors, assembled three times in seeded '
        'orders (one with twice the steps in the stepped elements), every unordered set/worklist of the engine ordered by the seed; readings '
        'of the two equal statements must agree, and the extrapolation to infinitely many steps must be the solution of the wave equations; '
        'non-trivial: at least one engine decision differed from insertion order')
REAL = ['phasor.system (ports, matrix, solver algorithms)', 'phasor.optics (crystal, AOM, AOMBasic, modulators, mirrors, detectors, vacuum)',
        'phasor.signals (generators, mean square detector)', 'phasor.readouts', 'phasor.matrix DAG solver', 'numpy']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['the stepped elements are first order in the number of steps: results are compared after one Richardson extrapolation',
               'one optical wavelength and its second harmonic; phase-matched crystals without loss; light in one direction',
               'lines beyond the configured order are cut off, in the model as in the engine']


def gen(rng, tier):
    nz = rng.random() < .25
    s = noise.gen(rng, tier, dom='conv') if nz else conv.gen(rng, tier)
    if not nz and rng.random() < .4:
        s['reads'] = [dict(k='DC', pd=i) for i, e in enumerate(s['els']) if e['t'] in ('PD', 'MPD')]
    return dict(dom='conv', noisy=nz, s=s, asm2=rng.getrandbits(30) if rng.random() < .6 else None, asm3=rng.getrandbits(30))


def shrink(spec):
    for s in work.shrink(dict(dom='conv', noisy=spec['noisy'], s=spec['s'])):
        yield dict(s, asm2=spec['asm2'], asm3=spec['asm3'])
    if spec['asm3']:
        yield dict(spec, asm3=0)
    if spec['asm2']:
        yield dict(spec, asm2=0)


def wanted(spec):
    """(exact readings, rest left after the extrapolation as estimated from plain Euler steps)"""
    s = spec['s']
    arr = isinstance(s['F'], list)
    out = {}

    def pull(euler):
        v = conv.values(s, euler)
        d = dict((('r', i), (np.asarray(a), sc)) for i, (a, sc) in enumerate(v))
        if spec['noisy']:
            S, H, mag = noise._conv_once(s, euler)
            adj = 1. if s['ss'] == 1 else .5

            def csd(i, j):
                c = adj * np.sum(S * H[:, i] * np.conj(H[:, j]), axis=0)
                m = adj * np.sqrt(np.sum(S * np.abs(H[:, i]) ** 2, axis=0) * np.sum(S * np.abs(H[:, j]) ** 2, axis=0))
                # steps are as coarse for what is almost extinguished as for what is there
                m = m + float(np.max(S, initial=0.)) * mag ** 2
                return (c if arr else c[0]), float(np.max(m))
            for i, r in enumerate(s['reads']):
                out_k = ('psd' if noise.has_ac(r) else 'n', i)
                c, m = csd(i, i)
                d[out_k] = (np.real(c), m)
            for g, idx in noise.groups(s).items():
                for i in idx:
                    for j in idx:
                        d['csd', g, i, j] = csd(i, j)
        return d
    X = pull(None)
    if not conv.stepped(s):
        return dict((k, (v, m, 1e-9 * m)) for k, (v, m) in X.items())
    E1, E2 = pull(1), pull(2)
    # one estimate per kind of reading: single ones may happen to vanish
    rest = {}
    for k, (v, m) in X.items():
        q = k[0] == 'r' and s['reads'][k[1]]['k'] == 'AC' or k[0]
        e = float(np.max(np.abs(2 * E2[k][0] - E1[k][0] - v))) / m
        rest[q] = max(rest.get(q, 0), e)
    for k, (v, m) in X.items():
        q = k[0] == 'r' and s['reads'][k[1]]['k'] == 'AC' or k[0]
        out[k] = (v, m, m * (2e-3 + 3 * rest[q]))
    return out


def run(spec, env):
    s = spec['s']
    want = wanted(spec)
    names = sorted(want)

    def solve(sp, asm, salt):
        b = work.build(sp, asm=asm)
        order = list(names)
        env.rng(salt).shuffle(order)
        return dict((n, np.array(work.observe(sp, b, n))) for n in order)
    one = solve(spec, None, 'one')
    if spec['asm2'] is not None or not conv.stepped(s):
        two = solve(spec, spec['asm2'], 'two')
        for n in names:
            v, m, t = want[n]
            expect('order-dependent', 'reading %r of the same network assembled twice' % (n,), two[n], one[n], 1e-6, 2e-7 * m + 1e-15)
        env.count('assembled_twice')
    fine = one
    if conv.stepped(s):
        sp2 = dict(spec, s=conv.scaled(s, 2))
        dbl = solve(sp2, spec['asm3'], 'three')
        fine = dict((n, 2 * dbl[n] - one[n]) for n in names)
    for n in names:
        v, m, t = want[n]
        k = s['reads'][n[1]]['k'] if n[0] == 'r' else n[0]
        expect('wrong-' + k, 'reading %r %r' % (n, s['reads'][n[1]] if n[0] == 'r' else ''), fine[n], v, 0, t + 1e-60)
        env.count('read_' + k)
    for e in s['els']:
        env.count('el_' + e['t'])
