"""Optical networks that mix frequencies: second harmonic generation and its inverse, acousto-optic shifting, modulation.

Light runs one way through a seeded chain of elements (beams joined and parted at 45 degree mirrors, sometimes one ring).
Reference: complex amplitudes per wavelength, polarisation and line; crystals and acousto-optic cells by their coupled
wave equations, integrated to high accuracy, together with the first-order audio sidebands around every line.
"""
import cmath
import itertools
import math

import numpy as np

from ..core import Skip, rnd
from .common import Assembler
from .elec import Built
from .optic import C, K1064, mirror, mirror_entries, mirror_kw, rot

H0 = 6.6260700408e-34 * C / 1064e-9

INS = dict(LAS=(), PD=('po_Fr',), MPD=('po_Fr',), SP=('po_Fr',), ROT=('po_Fr',), AM=('po_Fr',), PHM=('po_Fr',), CRY=('po_Fr',),
           AOMB=('po_Fr',), M=('po_FrA', 'po_BkB'), HM=('po_FrA', 'po_BkB'), AOM=('po_FrA', 'po_FrB'), GEN=())
OUTS = dict(LAS=('po_Fr',), PD=(), MPD=('po_Bk',), SP=('po_Bk',), ROT=('po_Bk',), AM=('po_Bk',), PHM=('po_Bk',), CRY=('po_Bk',),
            AOMB=('po_Bk',), M=('po_BkA', 'po_FrB'), HM=('po_BkA', 'po_FrB'), AOM=('po_BkA', 'po_BkB'), GEN=())
FLIP = {'po_Fr': 'po_Bk', 'po_Bk': 'po_Fr', 'po_FrA': 'po_BkA', 'po_BkA': 'po_FrA', 'po_FrB': 'po_BkB', 'po_BkB': 'po_FrB'}


def ins(e):
    return tuple(FLIP[p] for p in INS[e['t']]) if e.get('rev') else INS[e['t']]


def outs(e):
    return tuple(FLIP[p] for p in OUTS[e['t']]) if e.get('rev') else OUTS[e['t']]


def gen(rng, tier='quick', small=False, noise=False, array=None):
    most = (rng.choice([12, 12, 24]) if noise else rng.choice([12, 16, 24, 36])) if tier == 'quick' else 24 if noise else 60
    if small:
        most = min(most, 12)
    while True:
        spec = _gen(rng, noise, array)
        slim(spec, most)
        if states(spec) <= most:
            return spec


def _gen(rng, noise, array):
    nf = rng.choice([0, 0, 1, 1, 1, 1, 2])
    freqs = []
    for k in range(nf):
        F = rnd(rng, 6e7, 2e8) if k == 0 else rnd(rng, 2.5e8, 6e8)
        freqs.append(dict(F=F, order=rng.choice([1, 1, 2]) if nf == 1 else 1))
    els = []
    beams = []

    def add(t, **kw):
        els.append(dict(t=t, **kw))
        return len(els) - 1

    def off(p=.5):
        o = [0] * nf
        if nf and rng.random() < p:
            k = rng.randrange(nf)
            o[k] = rng.choice([1, -1])
        return o
    nl = rng.choice([1, 1, 2])
    ptot = 0
    for k in range(nl):
        P = rnd(rng, .05, 4)
        ptot += P
        i = add('LAS', P=P, h=rng.choice([1, 1, 2]) if k else rng.choice([1, 1, 1, 2]), pol='P' if rng.random() < .15 else 'S',
                phase=rng.choice([0, round(rng.uniform(-180, 180), 2)]), off=off(.3))
        els[i]['in'] = []
        beams.append([i, 0])
    kind = rng.choice(['cry', 'cry', 'aom', 'aom', 'mix'])
    ncry = {'cry': rng.choice([1, 1, 2]), 'aom': 0, 'mix': 1}[kind]
    if nf == 2:
        ncry = min(ncry, 1) if all(f['order'] == 1 for f in freqs) and rng.random() < .3 else 0
    naom = 0 if not nf else {'cry': 0, 'aom': rng.choice([1, 1, 2]), 'mix': 1}[kind]
    todo = ['CRY'] * ncry + [rng.choice(['AOM', 'AOM', 'AOMB']) for _ in range(naom)]
    if nf and rng.random() < .5:
        todo.append(rng.choice(['AM', 'PHM']))
    rng.shuffle(todo)
    for _ in range(rng.choice([0, 1, 2, 3])):
        todo.insert(rng.randrange(len(todo) + 1), rng.choice(['SP', 'SP', 'HM', 'M', 'MPD', 'ROT']))
    if rng.random() < .6:
        todo.insert(0, rng.choice(['AM0', 'PHM0']))
    if nl > 1:
        todo.insert(rng.choice([0, 0, 1]), 'join')
    def drive(k=None):
        g = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            f = rng.randrange(nf)
            mult = 2 if freqs[f]['order'] > 1 and rng.random() < .2 else 1
            if any(els[x]['F'] == f and els[x]['mult'] == mult for x in g):
                continue
            i = add('GEN', F=f, amp=rnd(rng, .05, 1.2), phase=rng.choice([0, 90, round(rng.uniform(-180, 180), 2)]), mult=mult)
            els[i]['in'] = []
            g.append(i)
        return g
    for t in todo:
        b = rng.randrange(len(beams))
        if t == 'join' or (t in ('M', 'HM') and len(beams) > 1 and rng.random() < .5):
            if len(beams) < 2:
                continue
            b2 = rng.choice([x for x in range(len(beams)) if x != b])
        else:
            b2 = None
        if t == 'join':
            t = 'HM' if len(set(els[x[0]].get('h') for x in beams)) > 1 else 'M'
        rev = rng.random() < .3
        if t in ('M', 'HM'):
            T = lambda: rng.choice([0, 1, .5, rnd(rng, .05, .95)])
            kw = dict(T=rng.choice([.5, rnd(rng, .05, .95)])) if t == 'M' else dict(T1=T(), T2=T())
            i = add(t, **kw)
            if rev:
                els[i]['rev'] = True
            ip = [beams[b], None if b2 is None else beams[b2]]
            if rng.random() < .5:
                ip.reverse()
            els[i]['in'] = ip
            dele = sorted([b] if b2 is None else [b, b2], reverse=True)
            for x in dele:
                del beams[x]
            beams += [[i, 0], [i, 1]]
            continue
        if t == 'SP':
            i = add('SP', L=rng.choice([0, rnd(rng, 1e-2, 30)]), det=rng.choice([0, round(rng.uniform(-6e-7, 6e-7), 10)]))
        elif t == 'ROT':
            i = add('ROT', deg=rng.choice([90, 45, round(rng.uniform(-90, 90), 1)]))
        elif t == 'CRY':
            i = add('CRY', g=round(rng.choice([.2, .4, .6]) * rng.uniform(.5, 1) / math.sqrt(ptot), 5), L=rng.choice([1, 1, 2.5]), N=rng.choice([8, 10, 12]))
            els[i]['g'] = round(els[i]['g'] / els[i]['L'], 6)
        elif t in ('AM0', 'PHM0'):
            i = add(t[:-1], drv=[])
        elif t in ('AM', 'PHM', 'AOMB', 'AOM'):
            g = drive()
            for x in g:
                if t in ('AM', 'PHM'):
                    els[x]['amp'] = min(els[x]['amp'], .5)
            i = add(t, drv=g)
            if t == 'AOM':
                els[i]['N'] = rng.choice([10, 16])
                if rng.random() < .2:
                    els[i]['split'] = 1e6 if rng.random() < .6 else 1e9
                if rng.random() < .2:
                    els[i]['pwr'] = rnd(rng, .3, 3)
        else:
            i = add(t)
        if rev and t not in ('MPD',):
            els[i]['rev'] = True
        if t == 'AOM':
            b2 = rng.choice([x for x in range(len(beams)) if x != b]) if len(beams) > 1 and rng.random() < .5 else None
            ip = [beams[b], None if b2 is None else beams[b2]]
            if rng.random() < .5:
                ip.reverse()
            els[i]['in'] = ip
            for x in sorted([b] if b2 is None else [b, b2], reverse=True):
                del beams[x]
            beams += [[i, 0], [i, 1]]
        else:
            els[i]['in'] = [beams[b]]
            beams[b] = [i, 0]
    # interferometers: bring two beams together again
    for _ in range(2):
        if len(beams) < 2 or rng.random() < .6:
            break
        rng.shuffle(beams)
        i = add('M', T=rng.choice([.5, rnd(rng, .05, .95)]))
        els[i]['in'] = [beams.pop(), beams.pop()]
        if rng.random() < .3:
            els[i]['rev'] = True
        beams += [[i, 0], [i, 1]]
    for b in beams:
        if rng.random() < .85:
            i = add('PD')
            els[i]['in'] = [b]
    pds = [i for i, e in enumerate(els) if e['t'] in ('PD', 'MPD')]
    if not pds:
        i = add('PD')
        els[i]['in'] = [beams[0]]
        pds = [i]
    drives = [i for i, e in enumerate(els) if e['t'] in ('AM', 'PHM')]
    if array is None:
        array = rng.random() < .2
    F = [rnd(rng, 1, 1e5) for _ in range(2)] if array else rnd(rng, 1, 1e5)
    spec = dict(dom='conv', freqs=freqs, els=els, F=F, asm=rng.getrandbits(30), reads=[])
    for _ in range(rng.choice([1, 2, 3, 4])):
        p = rng.choice(pds)
        k = rng.choice(['DC', 'DC', 'K', 'K', 'K', 'AC', 'AC'])
        if k == 'K' and nf:
            spec['reads'].append(dict(k='K', pd=p, key=[rng.choice([-1, 1, 1, 0, -f['order'], f['order']]) for f in freqs]))
        elif k == 'AC' and drives:
            spec['reads'].append(dict(k='AC', pd=p, d=rng.choice(drives)))
        else:
            spec['reads'].append(dict(k='DC', pd=p))
    spec['acord'] = rng.choice([1, 1, 1, 2])
    if noise:
        spec['noisy'] = True
    return spec


def states(spec):
    """fields inside the largest frequency converting element (the cost of a solution goes with its square)"""
    els = spec['els']
    n = 1
    for f in spec['freqs']:
        n *= 2 * f['order'] + 1
    if any(r['k'] == 'AC' for r in spec['reads']) or spec.get('noisy'):
        n *= 2 * spec['acord'] + 1
    if any(e['t'] == 'ROT' for e in els) or len(set(e['pol'] for e in els if e['t'] == 'LAS')) > 1:
        n *= 2
    hs = 2 if any(e['t'] == 'CRY' for e in els) else 1
    return n * max([2 if spec.get('noisy') else 1] + [{'CRY': 2, 'AOM': 2 * hs}.get(e['t'], 0) for e in els]) * 2


def slim(spec, most):
    if states(spec) > most:
        spec['acord'] = 1
    for f in spec['freqs']:
        if states(spec) > most and f['order'] == 2 and all(abs(r['key'][0]) < 2 for r in spec['reads'] if r['k'] == 'K') \
                and all(e.get('mult', 1) == 1 for e in spec['els']):
            f['order'] = 1
    if states(spec) > most:
        spec['reads'] = [dict(k='DC', pd=r['pd']) if r['k'] == 'AC' else r for r in spec['reads']]


# ---- reference -------------------------------------------------------------------------------------

class Box(object):
    """the lines n (one number per frequency, up to the order)"""
    def __init__(self, spec):
        self.lines = list(itertools.product(*[range(-f['order'], f['order'] + 1) for f in spec['freqs']]))
        self.idx = dict((n, k) for k, n in enumerate(self.lines))
        self.n = len(self.lines)
        self.f = np.array([sum(a * q['F'] for a, q in zip(n, spec['freqs'])) for n in self.lines])
        # triples (m, n, m+n)
        self.tri = [(i, j, self.idx[s]) for i, a in enumerate(self.lines) for j, b in enumerate(self.lines)
                    for s in [tuple(x + y for x, y in zip(a, b))] if s in self.idx]

    def shift(self, d):
        """pairs (k, k+d) within the box"""
        return [(k, self.idx[s]) for k, n in enumerate(self.lines) for s in [tuple(x + y for x, y in zip(n, d))] if s in self.idx]


class State(object):
    """c: (2 wavelengths, 2 polarisations, lines); u, w: same + (perturbations,), u the upper sideband of each line and w the
    conjugate of the lower one"""
    __slots__ = ('c', 'u', 'w')

    def __init__(self, nb, npert):
        self.c = np.zeros((2, 2, nb), dtype=complex)
        self.u = np.zeros((2, 2, nb, npert), dtype=complex)
        self.w = np.zeros((2, 2, nb, npert), dtype=complex)


class Ref(object):
    """euler: None for the exact solution, or the factor on the element's own number of steps"""
    def __init__(self, spec, F, noise=False, euler=None):
        self.spec = spec
        self.F = F
        self.box = Box(spec)
        self.euler = euler
        self.pert = []
        els = spec['els']
        for i in sorted(set(r['d'] for r in spec['reads'] if r['k'] == 'AC')):
            self.pert.append(('drv', i))
        if noise:
            for i, e in enumerate(els):
                if e['t'] == 'LAS':
                    self._vac(i, None)
                for p, s in enumerate(e['in']):
                    if s is None:
                        self._vac(i, p)
        self.pidx = dict((p, k) for k, p in enumerate(self.pert))
        self.np = len(self.pert)
        ring = any(s is not None and s[0] >= i for i, e in enumerate(els) for s in e['in'])
        self.out = {}
        self.at = {}
        zero = State(self.box.n, self.np)
        self.zero = zero
        last = None
        for sweep in range(400):
            self.sweep(zero)
            if not ring:
                break
            now = np.concatenate([np.concatenate([x.c.ravel(), x.u.ravel(), x.w.ravel()]) for k, x in sorted(self.out.items())])
            if last is not None and np.max(np.abs(now - last)) < 1e-11 * (1 + np.max(np.abs(now))):
                break
            last = now
        else:
            raise Skip('the ring does not settle')
        self.power = max(float(np.sum(np.abs(x.c) ** 2)) for x in self.out.values())

    def _vac(self, i, p):
        for h in (0, 1):
            for pol in (0, 1):
                for n in range(self.box.n):
                    for s in (0, 1):
                        self.pert.append(('vac', i, p, h, pol, n, s))

    def lit(self, x, i, p):
        """vacuum entering at input p of element i (None: the laser's own) on top of x"""
        for k, q in enumerate(self.pert):
            if q[0] == 'vac' and q[1] == i and q[2] == p:
                (x.w if q[6] else x.u)[q[3], q[4], q[5], k] += 1
        return x

    def drive(self, e):
        d = {}
        for g in e['drv']:
            q = self.spec['els'][g]
            n = [0] * len(self.spec['freqs'])
            n[q['F']] = q['mult']
            a = q['amp'] * cmath.exp(1j * math.pi / 180 * q['phase'])
            d[tuple(n)] = d.get(tuple(n), 0) + a
            m = tuple(-x for x in n)
            d[m] = d.get(m, 0) + a.conjugate()
        return d

    def center(self, d):
        return sum(a * q['F'] for a, q in zip(d, self.spec['freqs']))

    def sweep(self, zero):
        for i, e in enumerate(self.spec['els']):
            xs = []
            for p, s in enumerate(e['in']):
                if s is None:
                    xs.append(self.lit(State(self.box.n, self.np), i, p) if self.np else zero)
                else:
                    xs.append(self.out.get(tuple(s), zero))
            for p, y in enumerate(self.element(i, e, xs)):
                self.out[i, p] = y
            if e['t'] in ('PD', 'MPD'):
                self.at[i] = xs[0]

    def linear(self, xs, nout, rows):
        """rows: (out, in, function of (array over (h, pol, n, ...)), conj flag) -> array"""
        ys = []
        for o in range(nout):
            y = State(self.box.n, self.np)
            for oo, a, f in rows:
                if oo == o:
                    y.c += f(xs[a].c, False, 0)
                    if self.np:
                        y.u += f(xs[a].u, False, 1)
                        y.w += f(xs[a].w, True, -1)
            ys.append(y)
        return ys

    def element(self, i, e, xs):
        t = e['t']
        B = self.box
        if t in ('PD', 'GEN'):
            return []
        if t == 'MPD':
            return xs
        if t == 'LAS':
            x = State(B.n, self.np)
            x.c[e['h'] - 1, 'SP'.index(e['pol']), B.idx[tuple(e['off'])]] = math.sqrt(e['P']) * cmath.exp(1j * math.pi / 180 * e['phase'])
            return [self.lit(x, i, None)]
        if t in ('M', 'HM'):
            ent = {}
            for h, key in ((0, 'T1'), (1, 'T2')):
                m = dict(T=e.get(key, e.get('T')))
                for a, b, v in mirror_entries(m, True):
                    ent[a, b, h] = v
            rows = []
            at = ('po_FrA', 'po_FrB', 'po_BkA', 'po_BkB').index
            for o, op in enumerate(map(at, outs(e))):
                for a, ap in enumerate(map(at, ins(e))):
                    g = np.array([ent.get((ap, op, h), 0) for h in (0, 1)])
                    rows.append((o, a, lambda v, cj, s, g=g: v * g.reshape((2,) + (1,) * (v.ndim - 1))))
            return self.linear(xs, 2, rows)
        if t == 'SP':
            def f(v, cj, s):
                ph = np.array([np.exp(-2j * np.pi * (B.f + s * self.F) * e['L'] / C - 1j * h * K1064 * e['det']) for h in (1, 2)])
                ph = ph.reshape((2, 1, B.n) + (1,) * (v.ndim - 3))
                return v * (np.conj(ph) if cj else ph)
            return self.linear(xs, 1, [(0, 0, f)])
        if t == 'ROT':
            R = rot(-e['deg'] if e.get('rev') else e['deg'])
            return self.linear(xs, 1, [(0, 0, lambda v, cj, s: np.einsum('ab,hb...->ha...', R, v))])
        if t in ('AM', 'PHM'):
            M = np.eye(B.n, dtype=complex)
            for d, X in self.drive(e).items():
                for k, k2 in B.shift(d):
                    M[k2, k] += X * (.5 if t == 'AM' else .5j)
            y = self.linear(xs, 1, [(0, 0, lambda v, cj, s: np.einsum('ab,hpb...->hpa...', np.conj(M) if cj else M, v))])[0]
            k = self.pidx.get(('drv', i))
            if k is not None:
                g = .5 if t == 'AM' else .5j
                y.u[..., k] += g * xs[0].c
                y.w[..., k] += np.conj(g * xs[0].c)
            return [y]
        if t == 'AOMB':
            d = self.drive(e)
            s = -1 if e.get('rev') else 1
            norm = math.sqrt(sum(abs(X) ** 2 for X in d.values()) / 2)
            M = np.zeros((B.n, B.n), dtype=complex)
            for q, X in d.items():
                if self.center(q) * s > 0:
                    for k, k2 in B.shift(q):
                        M[k2, k] += X / norm
            return self.linear(xs, 1, [(0, 0, lambda v, cj, s: np.einsum('ab,hpb...->hpa...', np.conj(M) if cj else M, v))])
        if t == 'AOM':
            M = np.zeros((2 * B.n, 2 * B.n), dtype=complex)
            split = e.get('split', 40e6)
            for q, X in self.drive(e).items():
                # A to B shifts up, B to A shifts down; the other way round from behind
                up = self.center(q) * (-1 if e.get('rev') else 1)
                if abs(up) <= split:
                    continue
                G = -1j * math.pi / 2 / math.sqrt(e.get('pwr', 1)) * X
                for k, k2 in B.shift(q):
                    if up > 0:
                        M[B.n + k2, k] += G
                    else:
                        M[k2, B.n + k] += G
            if self.euler:
                N = e['N'] * self.euler
                E = np.linalg.matrix_power(np.eye(2 * B.n) + M / N, N)
            else:
                import scipy.linalg
                E = scipy.linalg.expm(M)
            rows = []
            for o in (0, 1):
                for a in (0, 1):
                    S = E[o * B.n:(o + 1) * B.n, a * B.n:(a + 1) * B.n]
                    rows.append((o, a, lambda v, cj, s, S=S: np.einsum('ab,hpb...->hpa...', np.conj(S) if cj else S, v)))
            return self.linear(xs, 2, rows)
        if t == 'CRY':
            return [self.crystal(e, xs[0])]
        raise AssertionError(t)

    def crystal(self, e, x):
        B = self.box
        y = State(B.n, self.np)
        tri = B.tri
        I = np.array([q[0] for q in tri])
        J = np.array([q[1] for q in tri])
        S = np.array([q[2] for q in tri])
        g = e['g'] * e['L']
        P = self.np
        # gather matrices (lines x triples)
        n = len(tri)
        toS, toI = np.zeros((B.n, n)), np.zeros((B.n, n))
        toS[S, range(n)] = 1
        toI[I, range(n)] = 1

        def rhs(v):
            c = v[:2 * B.n].reshape(2, B.n)
            d = np.empty_like(v)
            dc = d[:2 * B.n].reshape(2, B.n)
            c1, c2 = c
            # each pair of fundamental lines makes the sum line once per ordering
            dc[1] = 1j * g * (toS @ (c1[I] * c1[J]))
            dc[0] = 1j * g * (toI @ (c2[S] * np.conj(c1[J])))
            if P:
                u1, u2, w1, w2 = v[2 * B.n:].reshape(4, B.n, P)
                du1, du2, dw1, dw2 = d[2 * B.n:].reshape(4, B.n, P)
                a1, a2 = c1[:, None], c2[:, None]
                du2[:] = 2j * g * (toS @ (a1[I] * u1[J]))
                dw2[:] = np.conj(2j * g) * (toS @ (np.conj(a1[I]) * w1[J]))
                du1[:] = 1j * g * (toI @ (u2[S] * np.conj(a1[J]) + a2[S] * w1[J]))
                dw1[:] = -1j * g * (toI @ (w2[S] * a1[J] + np.conj(a2[S]) * u1[J]))
            return d
        for p in (0, 1):
            v = np.concatenate([x.c[:, p].ravel(), x.u[:, p].reshape(2, -1).ravel(), x.w[:, p].reshape(2, -1).ravel()])
            v = v.astype(complex)
            if np.any(v != 0) and g:
                if self.euler:
                    N = e['N'] * self.euler
                    for _ in range(N):
                        v = v + rhs(v) / N
                else:
                    # classical Runge-Kutta; the step is small against the coupling length
                    A = abs(g) * math.sqrt(float(np.sum(np.abs(x.c[:, p]) ** 2)))
                    N = int(24 + 60 * A)
                    h = 1. / N
                    for _ in range(N):
                        k1 = rhs(v)
                        k2 = rhs(v + h / 2 * k1)
                        k3 = rhs(v + h / 2 * k2)
                        k4 = rhs(v + h * k3)
                        v = v + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            y.c[:, p] = v[:2 * B.n].reshape(2, B.n)
            if P:
                y.u[:, p], y.w[:, p] = v[2 * B.n:].reshape(2, 2, B.n, P)
        return y

    # readings
    def dc(self, i):
        return float(np.sum(np.abs(self.at[i].c) ** 2)) if i in self.at else 0.

    def key(self, i, key):
        # a line's amplitude is the peak of the oscillation
        c = self.at[i].c
        return (2 if any(key) else 1) * sum(np.sum(c[:, :, k2] * np.conj(c[:, :, k])) for k, k2 in self.box.shift(key))

    def ac(self, i):
        """response to every perturbation"""
        x = self.at[i]
        return np.einsum('hpn,hpnk->k', np.conj(x.c), x.u) + np.einsum('hpn,hpnk->k', x.c, x.w)


def values(spec, euler=None):
    """(value, scale) per read"""
    arr = isinstance(spec['F'], list)
    Fs = spec['F'] if arr else [spec['F']]
    Rs = [Ref(spec, F, euler=euler) for F in Fs]
    out = []
    for r in spec['reads']:
        R = Rs[0]
        if r['k'] == 'DC':
            out.append((R.dc(r['pd']), R.power))
        elif r['k'] == 'K':
            out.append((R.key(r['pd'], tuple(r['key'])), R.power))
        else:
            v = [Q.ac(r['pd'])[Q.pidx['drv', r['d']]] for Q in Rs]
            out.append((np.array(v) if arr else v[0], R.power))
    return out


def stepped(spec):
    return any(e['t'] in ('CRY', 'AOM') for e in spec['els'])


def refs(spec, euler=None):
    F = spec['F']
    return [Ref(spec, f, euler=euler) for f in (F if isinstance(F, list) else [F])]


def norm(x):
    return float(np.sqrt(np.sum(np.abs(x) ** 2)))


def ref(spec):
    """the exact solution, with an allowance for the number of steps the elements were given: four times what plain Euler
    steps do to any field, felt in the reading to full order"""
    v = values(spec)
    if not stepped(spec):
        return [(a, s * 1e-11) for a, s in v]
    X, E = refs(spec), refs(spec, 1)
    at = sorted(X[0].out)
    dc = 4 * max(norm(x.out[i].c - e.out[i].c) for x, e in zip(X, E) for i in at)
    out = []
    for r, (a, s) in zip(spec['reads'], v):
        i = r['pd']
        if i not in X[0].at:
            out.append((a, s * 1e-9))
            continue
        c = norm(X[0].at[i].c)
        if r['k'] != 'AC':
            t = 2 * (2 * c * dc + dc * dc)
        else:
            k = X[0].pidx['drv', r['d']]
            f = lambda y: (norm(y.u[..., k]) + norm(y.w[..., k]))
            du = 4 * max(norm(x.out[j].u[..., k] - e.out[j].u[..., k]) + norm(x.out[j].w[..., k] - e.out[j].w[..., k]) for x, e in zip(X, E) for j in at)
            t = c * du + dc * max(f(x.at[i]) for x in X) + dc * du
        out.append((a, t + s * 1e-9))
    return out


def scaled(spec, m):
    """the same network with m times as many steps"""
    return dict(spec, els=[dict(e, N=e['N'] * m) if 'N' in e else e for e in spec['els']])


# ---- real system -----------------------------------------------------------------------------------

def factory(e, o, sysobj, freqs):
    t = e['t']
    if t == 'LAS':
        kw = {}
        cf = {freqs[k]: n for k, n in enumerate(e['off']) if n}
        if cf:
            kw['classical_fdict'] = cf
        if e['phase']:
            kw['phase_deg'] = e['phase']
        if e['h'] == 2:
            kw['multiple'] = 2
        return o.Laser(F=sysobj.F_carrier_1064, power_W=e['P'], polarization=e['pol'], **kw)
    if t == 'PD':
        return o.PD()
    if t == 'MPD':
        return o.MagicPD()
    if t == 'M':
        return o.Mirror(AOI_deg=45, **mirror_kw(e))
    if t == 'HM':
        return o.HarmonicMirror(mirror_H1=o.Mirror(T_hr=e['T1']), mirror_H2=o.Mirror(T_hr=e['T2']), AOI_deg=45)
    if t == 'SP':
        return o.Space(L_m=e['L'], L_detune_m=e['det'])
    if t == 'ROT':
        return o.PolarizationRotator(rotate_deg=e['deg'])
    if t == 'CRY':
        return o.NonlinearCrystal(nlg=e['g'], length_mm=e['L'], N_ode=e['N'])
    if t == 'AOM':
        kw = {}
        if 'split' in e:
            kw['freq_split_Hz'] = e['split']
        if 'pwr' in e:
            kw['drive_PWR_nominal'] = e['pwr']
        return o.AOM(N_ode=e['N'], **kw)
    if t == 'AOMB':
        return o.AOMBasic()
    if t == 'GEN':
        from phasor import signals
        kw = {}
        if e['phase']:
            kw['phase_deg'] = e['phase']
        if e['mult'] != 1:
            kw['multiple'] = e['mult']
        return signals.SignalGenerator(F=freqs[e['F']], amplitude=e['amp'], **kw)
    return {'AM': o.AM, 'PHM': o.PM}[t]()


def reader(spec, built):
    def read(i):
        ob = built['r%do' % i]
        k = spec['reads'][i]['k']
        return ob.DC_readout if k == 'DC' else ob.line if k == 'K' else ob.AC_sensitivity
    return read


def build(spec, asm=None, system_kw=None, extra=None):
    import phasor.optics as o
    from phasor import readouts, signals, system
    from phasor.base import SystemElementBase
    from .sig import key_readout
    kw = dict(system_kw or {})
    F = spec['F']
    if not kw.pop('omit_F', False):
        kw['F_AC'] = np.array(F) if isinstance(F, list) else F
    if spec['acord'] == 1:
        kw['freq_order_max_default'] = 1
    sysobj = system.BGSystem(**kw)
    # one iteration carries the exact field past one more nonlinear element; the rest is rounding noise
    sysobj.max_N = 5 + sum(1 for e in spec['els'] if e['t'] in ('CRY', 'AOM', 'AOMB') or e.get('drv'))
    A = Assembler(sysobj, spec['asm'] if asm is None else asm, SystemElementBase)
    els = spec['els']
    decls, acts, freqs = [], [], []
    for k, f in enumerate(spec['freqs']):
        freqs.append(sysobj.insert(system.Frequency(F_Hz=f['F'], F_center_Hz=f['F'], order=f['order']), 'Fmix%d' % k))

    def bond(a, b, needs):
        style = A.pick([0, 1, 2, 3]) if A.order is None else A.order.randrange(4)

        def act(built):
            p, q = a(built), b(built)
            if style % 2:
                p, q = q, p
            if style < 2:
                p.bond(q)
            else:
                sysobj.bond(p, q)
        acts.append((needs, act))
    for i, e in enumerate(els):
        decls.append(('e%d' % i, (), lambda built, e=e: factory(e, o, sysobj, freqs)))
    for i, e in enumerate(els):
        for p, s in enumerate(e['in']):
            if s is not None:
                bond(lambda b, i=i, e=e, p=p: getattr(b['e%d' % i], ins(e)[p]),
                     lambda b, s=s: getattr(b['e%d' % s[0]], outs(els[s[0]])[s[1]]), ('e%d' % i, 'e%d' % s[0]))
        g = e.get('drv', ())
        if len(g) == 1:
            bond(lambda b, i=i: b['e%d' % i].Drv, lambda b, g=g: b['e%d' % g[0]].ps_Out, ('e%d' % i, 'e%d' % g[0]))
        elif g:
            key = 'e%dsum' % i
            decls.append((key, (), lambda built: signals.SummingAmplifier(port_gains=dict(p0=1, p1=1))))
            bond(lambda b, i=i: b['e%d' % i].Drv, lambda b, key=key: b[key].ps_Out, ('e%d' % i, key))
            for k, q in enumerate(g):
                bond(lambda b, key=key, k=k: getattr(b[key], 'p%d' % k), lambda b, q=q: b['e%d' % q].ps_Out, (key, 'e%d' % q))
    for ri, r in enumerate(spec['reads']):
        needs = ['e%d' % r['pd']]
        if r['k'] == 'AC':
            needs.append('e%d' % r['d'])

        def mk(built, r=r):
            w = built['e%d' % r['pd']].Wpd.o
            if r['k'] == 'DC':
                return readouts.DCReadout(port=w)
            if r['k'] == 'K':
                return key_readout()(port=w, want=tuple(zip(freqs, r['key'])))
            return readouts.ACReadout(portD=built['e%d' % r['d']].Drv.i, portN=w)
        decls.append(('r%do' % ri, tuple(needs), mk))
    if extra:
        extra(decls, acts, o)
    A.run(decls, acts)
    b = Built()
    b.sys = sysobj
    b.built = A.built
    b.spec = spec
    b.nreads = len(spec['reads'])
    b.read = reader(spec, A.built)
    return b


def shrink(spec):
    R = spec['reads']
    if len(R) > 1:
        for i in range(len(R)):
            yield dict(spec, reads=R[:i] + R[i + 1:])
    els = spec['els']
    used = set(r['pd'] for r in R) | set(r['d'] for r in R if r['k'] == 'AC')

    def without(i, through=None):
        new = []
        for k, e in enumerate(els):
            if k == i:
                continue
            e = dict(e)

            def m(s):
                if s is None:
                    return None
                if s[0] == i:
                    s = through[s[1]] if through is not None else None
                    if s is None:
                        return None
                return [s[0] - (s[0] > i), s[1]]
            e['in'] = [m(s) for s in e['in']]
            if 'drv' in e:
                e['drv'] = [g - (g > i) for g in e['drv'] if g != i]
            new.append(e)
        reads = [dict(r, pd=r['pd'] - (r['pd'] > i), **({'d': r['d'] - (r['d'] > i)} if 'd' in r else {})) for r in R]
        return dict(spec, els=new, reads=reads)
    for i, e in enumerate(els):
        if i in used:
            continue
        yield without(i)
        if e['in']:
            yield without(i, [e['in'][min(k, len(e['in']) - 1)] for k in range(len(outs(e)))])
    for i, e in enumerate(els):
        for k in ('rev', 'split', 'pwr'):
            if k in e:
                e2 = dict(e)
                del e2[k]
                yield dict(spec, els=els[:i] + [e2] + els[i + 1:])
        for k, v in (('phase', 0), ('P', 1), ('L', 1 if e['t'] == 'CRY' else 0), ('det', 0), ('T', .5), ('T1', 1), ('T2', 0), ('pol', 'S'), ('mult', 1), ('amp', .5)):
            if k in e and e[k] != v:
                yield dict(spec, els=els[:i] + [dict(e, **{k: v})] + els[i + 1:])
        if e.get('off') and any(e['off']):
            yield dict(spec, els=els[:i] + [dict(e, off=[0] * len(e['off']))] + els[i + 1:])
    for k, f in enumerate(spec['freqs']):
        if f['order'] > 1 and all(abs(r['key'][k]) < 2 for r in R if r['k'] == 'K') and all(e.get('mult', 1) == 1 for e in els):
            yield dict(spec, freqs=[dict(q, order=1) if j == k else q for j, q in enumerate(spec['freqs'])])
        if not any(e['t'] == 'GEN' and e['F'] == k for e in els) and not any(e.get('off', [0] * 9)[k] for e in els):
            new = []
            for e in els:
                e = dict(e)
                if 'off' in e:
                    e['off'] = e['off'][:k] + e['off'][k + 1:]
                if e['t'] == 'GEN':
                    e['F'] -= e['F'] > k
                new.append(e)
            yield dict(spec, freqs=spec['freqs'][:k] + spec['freqs'][k + 1:], els=new,
                       reads=[dict(r, key=r['key'][:k] + r['key'][k + 1:]) if r['k'] == 'K' else r for r in R])
    if isinstance(spec['F'], list):
        yield dict(spec, F=spec['F'][0])
    if spec['asm']:
        yield dict(spec, asm=0)
