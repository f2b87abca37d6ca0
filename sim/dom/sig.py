"""Random signal-flow networks and their algebraic solution.

Two families: 'lin' nets are linear, with feedback, read at the AC frequency; 'mod' nets are
feed-forward chains of generators, mixers, modulators, doublers and mean-square detectors whose
reference multiplies the signals as Fourier series in time (two-sided), nothing else.
"""
import itertools

import numpy as np

from ..core import rnd, Skip
from .elec import Built
from .common import Assembler, user

AC_CENTER = 1e3     # the nominal frequency of the AC drive against which cutoffs are judged
SISO = ('FILT', 'SZP', 'INT', 'MECH', 'FUN', 'GAIN', 'TFAC')


def ins_of(e):
    t = e['t']
    if t in SISO or t in ('DIST', 'H2', 'MS'):
        return ['ps_In']
    if t == 'SUM':
        return ['p%d' % k for k in range(len(e['g']))]
    if t in ('MAMP', 'MIMO'):
        return ['i%d' % k for k in sorted(set(p[0] for p in e['pairs']))]
    if t == 'SS':
        return ['u%d' % k for k in range(len(e['B'][0]))]
    if t == 'NODE':
        return ['n']
    if t == 'MIX':
        return ['ps_LO', 'ps_In']
    if t == 'MODU':
        return ['ps_In', 'Mod_amp', 'Mod_phase', 'Mod_freq']
    return []


def outs_of(e):
    t = e['t']
    if t in SISO or t in ('SUM', 'MODU', 'H2'):
        return ['ps_Out']
    if t == 'DIST':
        return ['p%d' % k for k in range(len(e['g']))]
    if t in ('MAMP', 'MIMO'):
        return ['o%d' % k for k in sorted(set(p[1] for p in e['pairs']))]
    if t == 'SS':
        return ['y%d' % k for k in range(len(e['C']))]
    if t == 'NODE':
        return ['n']
    if t == 'MIX':
        return ['ps_R_I', 'ps_R_Q']
    if t == 'MS':
        return ['MS']
    if t == 'GEN':
        return ['ps_Out'] + ['OutH%d' % h for h, _, _ in e['H']]
    return []


def port(obj, e, side, name):
    t = e['t']
    if t == 'NODE':
        return obj
    if t in ('MAMP', 'MIMO'):
        return (obj.ps_In if side == 'i' else obj.O)[name]
    if t == 'SS':
        k = int(name[1:])
        return (obj.ports_in if side == 'i' else obj.ports_out)[k]
    return getattr(obj, name)


# ---- declared transfer functions ----------------------------------------------------------------

def fun(c, f):
    """the user-supplied spectrum function of FUN and MIMO entries"""
    return (c[0] + 1j * f * c[1]) / (1 + 1j * f / c[2])


def ufun(c, f):
    user()
    return fun(c, f)


def cx(p):
    return complex(p[0], p[1]) if isinstance(p, list) else p


def xfer(e, f, fc, n):
    """list of (in, out, value) at frequency f (scalar), nominal frequency fc, key n=(..., ac)"""
    t = e['t']
    if t in SISO:
        v = None
        if t == 'FUN':
            if abs(fc) > e.get('cut', np.inf) or abs(fc) < e.get('cutlow', 0):
                return []
        if e.get('noDC', t == 'INT') and not any(n):
            return []
        if t in ('FILT', 'SZP'):
            def at(f):
                r = 1.
                for k, s in (('zr', 1), ('pr', -1)):
                    for p in e[k]:
                        r = r * (1 - 1j * f / p) ** s
                for k, s in (('zc', 1), ('pc', -1)):
                    for p in e[k]:
                        p = cx(p)
                        r = r * ((1 - 1j * f / p) * (1 - 1j * f / p.conjugate())) ** s
                return r
            v = at(f)
            if t == 'FILT':
                v = v * e['g'] * np.exp(-2j * np.pi * f * e.get('delay', 0))
                if e.get('gF'):
                    v = v / abs(at(e['gF']))
        elif t == 'INT':
            v = 1 / (-1j * f)
        elif t == 'MECH':
            fw = e['fwhm'] if 'fwhm' in e else e['f0'] / e['q']
            v = 1 / (e['m'] * (2 * np.pi) ** 2) / (-f ** 2 + 1j * fw * f + e['f0'] ** 2)
        elif t == 'FUN':
            v = fun(e['c'], f)
        elif t == 'GAIN':
            v = 1 if e['g'] is None else e['g']
        elif t == 'TFAC':
            if any(n[:-1]) or n[-1] not in (1, -1):
                return []
            g = cx(e['g'])
            v = g if n[-1] > 0 else g.conjugate()
        return [('ps_In', 'ps_Out', v)]
    if t == 'DIST':
        return [('ps_In', 'p%d' % k, g) for k, g in enumerate(e['g'])]
    if t == 'SUM':
        return [('p%d' % k, 'ps_Out', g) for k, g in enumerate(e['g'])]
    if t == 'MAMP':
        return [('i%d' % i, 'o%d' % o, g) for i, o, g in e['pairs']]
    if t == 'MIMO':
        if 'max' in e and e['_fmin'] >= e['max']:
            return []
        return [('i%d' % i, 'o%d' % o, fun(c, f)) for i, o, c in e['pairs']]
    if t == 'SS':
        if 'max' in e and e['_fmin'] >= e['max']:
            return []
        A, B, C, D = (np.array(e[k], dtype=float) for k in 'ABCD')
        H = C @ np.linalg.solve(2j * np.pi * f * np.eye(len(A)) - A, B) + D
        return [('u%d' % i, 'y%d' % o, H[o, i]) for i in range(H.shape[1]) for o in range(H.shape[0])]
    if t == 'NODE':
        return []
    raise AssertionError(t)


# ---- generators -----------------------------------------------------------------------------------

def gen_el(rng, F, kinds):
    t = rng.choice(kinds)
    sgn = lambda: rng.choice([1, 1, -1])
    g = lambda: sgn() * rnd(rng, .05, 5)
    e = dict(t=t)
    if t in ('FILT', 'SZP'):
        root = lambda: sgn() * rnd(rng, .1 * F, 10 * F)
        croot = lambda: [-rnd(rng, .1 * F, 10 * F), rnd(rng, .1 * F, 10 * F)]
        e.update(zr=[root() for _ in range(rng.choice([0, 0, 1, 2]))], pr=[root() for _ in range(rng.choice([0, 1, 1, 2]))],
                 zc=[croot() for _ in range(rng.choice([0, 0, 1]))], pc=[croot() for _ in range(rng.choice([0, 0, 1, 2]))])
        if t == 'FILT':
            e['g'] = g()
            if rng.random() < .3:
                e['delay'] = rnd(rng, .01, 2) / F
            if rng.random() < .2:
                e['gF'] = rnd(rng, .2 * F, 5 * F)
    elif t == 'MECH':
        e.update(m=rnd(rng, 1e-3, .1) / F ** 2, f0=rnd(rng, .2 * F, 5 * F))
        if rng.random() < .5:
            e['q'] = rnd(rng, .5, 50)
        else:
            e['fwhm'] = rnd(rng, .01, 1) * e['f0']
    elif t == 'FUN':
        e['c'] = [g(), g() / F, rnd(rng, .1 * F, 10 * F)]
        r = rng.random()
        if r < .2:
            e['cut'] = rng.choice([10., 999., 1000., 5e6])
        elif r < .4:
            e['cutlow'] = rng.choice([10., 1000., 1001.])
        if rng.random() < .2:
            e['noDC'] = True
    elif t == 'GAIN':
        e['g'] = None if rng.random() < .1 else g()
    elif t == 'TFAC':
        e['g'] = [g(), g()]
    elif t in ('DIST', 'SUM'):
        e['g'] = [g() for _ in range(rng.randint(1, 3))]
    elif t in ('MAMP', 'MIMO'):
        ni, no = rng.randint(1, 3), rng.randint(1, 3)
        pairs = [(i, o) for i in range(ni) for o in range(no)]
        pairs = rng.sample(pairs, rng.randint(1, len(pairs)))
        e['pairs'] = [[i, o, g() if t == 'MAMP' else [g(), g() / F, rnd(rng, .1 * F, 10 * F)]] for i, o in sorted(pairs)]
        if t == 'MIMO' and rng.random() < .3:
            e['max'] = rng.choice([F / 3, F * 3])
    elif t == 'SS':
        n, ni, no = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)
        w = 2 * np.pi * F
        z = lambda p: rng.random() < p
        e['A'] = [[0. if z(.3) else float('%.4g' % (g() * w * .3 - (2 * w if i == j else 0))) for j in range(n)] for i in range(n)]
        e['B'] = [[0. if z(.3) else float('%.4g' % (g() * w)) for _ in range(ni)] for _ in range(n)]
        e['C'] = [[0. if z(.3) else g() for _ in range(n)] for _ in range(no)]
        e['D'] = [[0. if z(.6) else g() for _ in range(ni)] for _ in range(no)]
        if rng.random() < .2:
            e['max'] = rng.choice([F / 3, F * 3])
    return e


def gen(rng, tier='quick', kind=None, small=False, array=None):
    if kind is None:
        kind = rng.choice(['lin', 'lin', 'mod'])
    if kind == 'mod':
        return gen_mod(rng, small)
    F = rnd(rng, .1, 3000)
    if array is None:
        array = rng.random() < .35
    Fs = sorted(rnd(rng, F / 2, F * 2) for _ in range(rng.choice([2, 3, 5]))) if array else F
    kinds = ['FILT', 'FILT', 'SZP', 'INT', 'MECH', 'FUN', 'GAIN', 'TFAC', 'DIST', 'SUM', 'MAMP', 'MIMO', 'SS', 'NODE', 'NODE']
    els = [gen_el(rng, F, kinds) for _ in range(rng.randint(2, 5 if small else 9))]
    outs = [(i, p) for i, e in enumerate(els) for p in range(len(outs_of(e)))]
    inp = [(i, p) for i, e in enumerate(els) for p in range(len(ins_of(e)))]
    edges = set()
    loops = rng.random() < .6
    # a backbone so that most elements are reachable
    for i in range(1, len(els)):
        a = rng.choice([x for x in outs if x[0] < i])
        b = rng.choice([x for x in inp if x[0] == i])
        edges.add((a, b))
    for _ in range(rng.choice([0, 1, 2, 4])):
        a, b = rng.choice(outs), rng.choice(inp)
        if loops or a[0] < b[0]:
            edges.add((a, b))
    edges = [[list(a), list(b)] for a, b in sorted(edges) if not (els[a[0]]['t'] == 'NODE' and els[b[0]]['t'] == 'NODE')]
    anyp = [['i', i, p] for i, p in inp] + [['o', i, p] for i, p in outs]
    reads = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(['S', 'S', 'S', 'OL', 'CLG', 'LG', 'LG'])
        if k == 'S':
            reads.append(dict(k='S', D=rng.choice(anyp[:len(inp)] + anyp), N=rng.choice(anyp[len(inp):] + anyp), noise=rng.random() < .2))
        elif k == 'OL':
            reads.append(dict(k='OL', D=rng.choice(anyp), N=rng.choice(anyp), Dr=rng.choice(anyp)))
        elif k == 'CLG':
            reads.append(dict(k='CLG', D=rng.choice(anyp), N=rng.choice(anyp)))
        else:
            r = dict(k='LG', q=rng.choice(['CLG', 'OLG', 'GP']))
            r['Act'], r['Sense'] = rng.choice(anyp), rng.choice(anyp)
            if r['q'] != 'GP' and rng.random() < .4:
                r[rng.choice(['Act', 'Sense'])] = None
            if rng.random() < .3:
                r['Drv'] = rng.choice(anyp)
            reads.append(r)
    if not array:
        pass
    else:
        # arrays of gains along the frequency axis
        for e in els:
            if e['t'] == 'TFAC' and rng.random() < .7:
                e['g'] = [[rnd(rng, .1, 3), rnd(rng, .1, 3)] for _ in Fs]
    return dict(dom='sig', kind='lin', els=els, edges=edges, F=Fs, reads=reads, asm=rng.getrandbits(30))


def gen_mod(rng, small=False):
    nF = rng.choice([1, 1, 2])
    freqs = []
    for k in range(nF):
        f = rnd(rng, 100, 1e6)
        freqs.append(dict(f=f, order=rng.choice([None, 1, 2, 3, 4])))
    F = rnd(rng, .1, 10)
    els, edges = [], []
    outs = []

    def put(e):
        els.append(e)
        i = len(els) - 1
        for p in range(len(outs_of(e))):
            outs.append([i, p])
        return i
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.randrange(nF)
        e = dict(t='GEN', F=k, mult=rng.choice([1, 1, 1, 2]), amp=rnd(rng, .1, 3), ph=rng.choice([0, rng.choice([1, -1]) * rnd(rng, .1, 3)]), H=[])
        if rng.random() < .3:
            e['H'] = [[h, rnd(rng, .1, 2), rng.choice([0, rnd(rng, .1, 2)])] for h in rng.sample([2, 3], rng.choice([1, 2]))]
        put(e)
    kinds = ['MIX', 'MIX', 'MODU', 'MODU', 'H2', 'MS', 'FILT', 'GAIN', 'FUN', 'SUM', 'DIST', 'INT', 'SZP', 'MECH', 'MIMO', 'NODE']
    for _ in range(rng.randint(1, 3 if small else 5)):
        e = gen_el(rng, freqs[0]['f'], kinds)
        if e['t'] == 'MODU':
            e['ph'] = rng.choice([0, rng.choice([1, -1]) * rnd(rng, .1, 3)])
        e.pop('max', None)
        avail = list(outs)
        i = put(e)
        for p, nm in enumerate(ins_of(e)):
            n = 1
            if e['t'] == 'MODU' and p:
                n = rng.choice([0, 0, 1])
            elif e['t'] == 'SUM' or p == 0:
                n = rng.choice([1, 1, 1, 2])
            for a in rng.sample(avail, min(n, len(avail))):
                if els[a[0]]['t'] == 'NODE' and e['t'] == 'NODE':
                    continue
                edges.append([a, [i, p]])
    spec = dict(dom='sig', kind='mod', els=els, edges=edges, freqs=freqs, F=F, reads=[], asm=rng.getrandbits(30))
    inp = [['i', i, p] for i, e in enumerate(els) for p in range(len(ins_of(e)))]
    outp = [['o', i, p] for i, p in outs]
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(['DC', 'K', 'K', 'S'])
        if k == 'S':
            spec['reads'].append(
                dict(k='S', D=rng.choice(inp + outp), N=rng.choice(outp), noise=False))
        elif k == 'DC':
            spec['reads'].append(dict(k='DC', N=rng.choice(outp + inp), tp=rng.random() < .3))
        else:
            spec['reads'].append(dict(k='K', N=rng.choice(outp), pick=rng.randrange(1000)))
    try:
        R = ModRef(spec)
        for r in spec['reads']:
            if r['k'] == 'K':
                keys = sorted(k for k in R.stat[tuple(r['N'])])
                # a key that is there, or one that must stay empty
                if keys and rng.random() < .85:
                    r['key'] = list(keys[r['pick'] % len(keys)])
                else:
                    r['key'] = [rng.randint(-2, 2) for _ in freqs] + [0]
                del r['pick']
    except Skip:
        for r in spec['reads']:
            if r['k'] == 'K':
                r['key'] = [1] + [0] * nF
                r.pop('pick', None)
    return spec


# ---- reference: linear nets ----------------------------------------------------------------------

class LinRef(object):
    def __init__(self, spec, f, fmin, k=None):
        els = spec['els']
        self.idx = {}
        n = 0
        for i, e in enumerate(els):
            for p, nm in enumerate(ins_of(e)):
                self.idx['i', i, p] = n
                if e['t'] == 'NODE':
                    self.idx['o', i, p] = n
                n += 1
            if e['t'] != 'NODE':
                for p, nm in enumerate(outs_of(e)):
                    self.idx['o', i, p] = n
                    n += 1
        M = np.zeros((n, n), dtype=complex)
        for a, b in spec['edges']:
            M[self.idx['i', b[0], b[1]], self.idx['o', a[0], a[1]]] += 1
        for i, e in enumerate(els):
            e2 = dict(e, _fmin=fmin)
            if e['t'] == 'TFAC' and isinstance(e['g'][0], list):
                e2['g'] = e['g'][k]
            I, O = ins_of(e), outs_of(e)
            for a, b, v in xfer(e2, f, AC_CENTER, (1,)):
                M[self.idx['o', i, O.index(b)], self.idx['i', i, I.index(a)]] += v
        A = np.eye(n) - M
        self.cond = np.linalg.cond(A) if n else 1
        if not self.cond < 1e6:
            raise Skip('feedback too close to its pole')
        # hidden unstable-in-arithmetic sub-blocks: state space nodes are eliminated inside the engine
        self.inv = np.linalg.inv(A)

    def get(self, D, N):
        return self.inv[self.idx[tuple(N)], self.idx[tuple(D)]]


def lin_value(R, r):
    """-> (value, absolute tolerance)"""
    mag = R.cond * 1e-11
    if r['k'] in ('S', 'CLG'):
        return R.get(r['D'], r['N']), mag * np.max(np.abs(R.inv))

    def ratio(n, d):
        if abs(d) < 1e-6 * np.max(np.abs(R.inv)) * min(1, 1e5 / R.cond):
            raise Skip('ratio with a vanishing denominator')
        return n / d, mag * np.max(np.abs(R.inv)) / abs(d) * (1 + abs(n / d))
    if r['k'] == 'OL':
        return ratio(R.get(r['Dr'], r['N']), R.get(r['Dr'], r['D']))
    if r['q'] == 'GP':
        drv = r.get('Drv') or r['Act']
        return ratio(R.get(drv, r['Sense']), R.get(drv, r['Act']))
    p = r['Sense'] or r['Act']
    c = R.get(p, p)
    if r['q'] == 'CLG':
        return c, mag * np.max(np.abs(R.inv))
    return ratio(1 - c, c)


def ref(spec):
    if spec['kind'] == 'mod':
        return mod_ref(spec)
    arr = isinstance(spec['F'], list)
    Fs = spec['F'] if arr else [spec['F']]
    Rs = [LinRef(spec, f, min(Fs), k) for k, f in enumerate(Fs)]
    out = []
    for r in spec['reads']:
        v = [lin_value(R, r) for R in Rs]
        out.append((np.array([a for a, _ in v]), max(b for _, b in v)) if arr else v[0])
    return out


# ---- reference: modulation chains ------------------------------------------------------------------

def add(x, k, v):
    x[k] = x.get(k, 0) + v


class ModRef(object):
    """spectra in the peak-amplitude convention: a line at key f and its mirror at -f make A cos(2 pi f t + arg A)"""
    def __init__(self, spec, drive=None, line=None):
        self.spec = spec
        self.line = line
        self.nk = len(spec['freqs']) + 1
        self.freq = [q['f'] for q in spec['freqs']] + [spec['F']]
        self.cfreq = [q['f'] for q in spec['freqs']] + [AC_CENTER]
        self.order = [2 if q['order'] is None else q['order'] for q in spec['freqs']] + [2]
        self.mag = 1.
        self.stat = {}
        self.pert = {}
        els = spec['els']
        into = {}
        for a, b in spec['edges']:
            into.setdefault(tuple(b), []).append(tuple(a))
        # feed-forward: elements are listed in order
        for i, e in enumerate(els):
            for p, nm in enumerate(ins_of(e)):
                s, q = {}, {}
                for a in into.get((i, p), ()):
                    for k, v in self.stat[('o',) + a].items():
                        add(s, k, v)
                    for k, v in self.pert[('o',) + a].items():
                        add(q, k, v)
                self.drive(q, drive, ('i', i, p))
                if e['t'] == 'NODE':
                    self.drive(q, drive, ('o', i, p))
                self.stat['i', i, p], self.pert['i', i, p] = s, q
            if e['t'] == 'NODE':
                self.stat['o', i, 0], self.pert['o', i, 0] = self.stat['i', i, 0], self.pert['i', i, 0]
                continue
            for p, nm in enumerate(outs_of(e)):
                s, q = self.out(i, e, nm)
                self.drive(q, drive, ('o', i, p))
                self.stat['o', i, p], self.pert['o', i, p] = s, q
        for d in itertools.chain(self.stat.values(), self.pert.values()):
            for v in d.values():
                self.mag = max(self.mag, abs(v))

    def drive(self, q, drive, at):
        if drive is not None and tuple(drive) == at:
            if self.line is not None:
                add(q, self.line, 1.)
                return
            z = (0,) * (self.nk - 1)
            add(q, z + (1,), 1.)
            add(q, z + (-1,), 1.)

    def f(self, k):
        return sum(n * f for n, f in zip(k, self.freq))

    def fc(self, k):
        return sum(n * f for n, f in zip(k, self.cfreq))

    def ok(self, k):
        return all(abs(n) <= o for n, o in zip(k, self.order))

    def nodc(self, x):
        for k, v in x.items():
            if not any(k):
                raise Skip('a static level enters a mixing element')
            if self.fc(k) == 0 or self.f(k) == 0 or abs(self.f(k)) < 1e-9 * max(self.freq):
                raise Skip('degenerate frequencies')
        return x

    def mul(self, a, b):
        """product of two signals as Fourier series: a line A means A/2 e^{i w t}"""
        out = {}
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                k = tuple(x + y for x, y in zip(k1, k2))
                if not self.ok(k):
                    continue
                two_sided = (v1 / 2) * (v2 / 2)
                add(out, k, two_sided * (2 if any(k) else 1))
        return out

    def sgn(self, k):
        return 1 if self.f(k) > 0 else -1

    def hil(self, a):
        return dict((k, 1j * self.sgn(k) * v) for k, v in a.items())

    def bilinear(self, a, b):
        """((static, perturbation) of a times b)"""
        s = self.mul(a[0], b[0])
        q = self.mul(a[1], b[0])
        for k, v in self.mul(a[0], b[1]).items():
            add(q, k, v)
        return s, q

    def get(self, i, nm):
        p = ins_of(self.spec['els'][i]).index(nm)
        return self.stat['i', i, p], self.pert['i', i, p]

    def out(self, i, e, nm):
        t = e['t']
        if t == 'GEN':
            s = {}

            def line(n, v):
                k = [0] * self.nk
                k[e['F']] = n
                add(s, tuple(k), v)
                add(s, tuple(-x for x in k), np.conj(v))
            if nm == 'ps_Out':
                line(e['mult'], e['amp'] * np.exp(1j * e['ph']))
            else:
                h, re, im = [x for x in e['H'] if nm == 'OutH%d' % x[0]][0]
                line(h * e['mult'], complex(re, im) * np.exp(1j * h * e['ph']))
            return s, {}
        if t == 'MIX':
            lo, x = self.get(i, 'ps_LO'), self.get(i, 'ps_In')
            for d in lo + x:
                self.nodc(d)
            if nm == 'ps_R_Q':
                lo = tuple(self.hil(d) for d in lo)
            return self.bilinear(lo, x)
        if t == 'MODU':
            x = self.get(i, 'ps_In')
            am, pm, fm = (self.get(i, n) for n in ('Mod_amp', 'Mod_phase', 'Mod_freq'))
            for d in x + am + pm + fm:
                self.nodc(d)
            x = tuple(dict((k, v * np.exp(1j * self.sgn(k) * e['ph'])) for k, v in d.items()) for d in x)
            # frequency modulation is phase modulation with the integral
            pm2 = []
            for d, dd in zip(pm, fm):
                m = dict(d)
                for k, v in dd.items():
                    add(m, k, v / (-1j * self.f(k)))
                pm2.append(m)
            A = self.bilinear(x, am)
            P = self.bilinear(tuple(self.hil(d) for d in x), pm2)
            res = []
            for a, b, c in zip(x, A, P):
                m = dict(a)
                for k, v in itertools.chain(b.items(), c.items()):
                    add(m, k, v)
                res.append(m)
            return tuple(res)
        if t == 'H2':
            x = self.get(i, 'ps_In')
            for d in x:
                self.nodc(d)
            s, q = {}, {}
            for k1, v1 in x[0].items():
                for k2, v2 in x[0].items():
                    if self.fc(k1) * self.fc(k2) > 0:
                        k = tuple(a + b for a, b in zip(k1, k2))
                        if self.ok(k):
                            add(s, k, v1 * v2)
                for k2, v2 in x[1].items():
                    if self.fc(k1) * self.fc(k2) > 0:
                        k = tuple(a + b for a, b in zip(k1, k2))
                        if self.ok(k):
                            add(q, k, 2 * v1 * v2)
            return s, q
        if t == 'MS':
            x = self.get(i, 'ps_In')
            self.nodc(x[0])
            z = (0,) * self.nk
            # lines beyond the configured order are not paired with their mirror
            v = sum(.25 * abs(a) ** 2 for k, a in x[0].items() if self.ok(k))
            return {z: v}, {}
        s, q = {}, {}
        for src, dst in ((0, s), (1, q)):
            for p, inm in enumerate(ins_of(e)):
                for k, v in (self.stat, self.pert)[src]['i', i, p].items():
                    if not any(k) and t == 'INT':
                        continue
                    for a, b, g in xfer(e, self.f(k), self.fc(k), k):
                        if a == inm and b == nm:
                            add(dst, k, g * v)
        return s, q


def mod_ref(spec):
    R = ModRef(spec)
    z = (0,) * R.nk
    out = []
    for r in spec['reads']:
        if r['k'] == 'S':
            Q = ModRef(spec, r['D'])
            out.append((complex(Q.pert[tuple(r['N'])].get(z[:-1] + (1,), 0)), Q.mag ** 2 * 1e-11))
        else:
            key = z if r['k'] == 'DC' else tuple(r['key'])
            v = complex(R.stat[tuple(r['N'])].get(key, 0))
            out.append((v.real if r['k'] == 'DC' else v, R.mag ** 2 * 1e-11))
    return out


# ---- building -------------------------------------------------------------------------------------

def factory(e, sysobj, freqs, arr):
    from phasor import signals as s
    t = e['t']
    if t in ('FILT', 'SZP'):
        kw = dict(zeros_r=tuple(e['zr']), poles_r=tuple(e['pr']), zeros_c=tuple(cx(p) for p in e['zc']), poles_c=tuple(cx(p) for p in e['pc']))
        if t == 'SZP':
            return s.ZPSOS.SZPCascade(**kw) if hasattr(s, 'ZPSOS') else s.SRationalFilter(gain=1, **kw)
        if 'delay' in e:
            kw['delay_s'] = e['delay']
        if 'gF' in e:
            kw['gain_F_Hz'] = e['gF']
        return s.SRationalFilter(gain=e['g'], **kw)
    if t == 'INT':
        return s.Integrator()
    if t == 'MECH':
        return s.TransferFunctionSISOMechSingleResonance(mass_kg=e['m'], center_Hz=e['f0'], **({'q_factor': e['q']} if 'q' in e else {'FWHM_Hz': e['fwhm']}))
    if t == 'FUN':
        kw = {}
        if 'cut' in e:
            kw['F_cutoff'] = e['cut']
        if 'cutlow' in e:
            kw['F_cutoff_low'] = e['cutlow']
        if 'noDC' in e:
            kw['no_DC'] = e['noDC']
        return s.TransferFunctionSISO(filter_func=lambda f, c=e['c']: ufun(c, f), **kw)
    if t == 'GAIN':
        return s.Gain() if e['g'] is None else s.Gain(gain=e['g'])
    if t == 'TFAC':
        g = e['g']
        g = np.array([cx(x) for x in g]) if isinstance(g[0], list) else (np.array(cx(g)) if arr else cx(g))
        return s.TFACArray(gain_array=g)
    if t == 'DIST':
        return s.DistributionAmplifier(port_gains=dict(('p%d' % k, g) for k, g in enumerate(e['g'])))
    if t == 'SUM':
        return s.SummingAmplifier(port_gains=dict(('p%d' % k, g) for k, g in enumerate(e['g'])))
    if t == 'MAMP':
        return s.MatrixAmplifier(port_pair_gains=dict((('i%d' % i, 'o%d' % o), g) for i, o, g in e['pairs']))
    if t == 'MIMO':
        return s.TransferFunctionMIMO(port_pair_xfers=dict((('i%d' % i, 'o%d' % o), lambda f, c=c: ufun(c, f)) for i, o, c in e['pairs']),
                                      **({'max_freq': e['max']} if 'max' in e else {}))
    if t == 'SS':
        M = dict((k, np.array(e[k], dtype=float)) for k in 'ABCD')
        return s.StateSpaceModel(names_in=ins_of(e), names_out=outs_of(e), **dict(M, **({'max_freq': e['max']} if 'max' in e else {})))
    if t == 'NODE':
        return s.SignalNode()
    if t == 'MIX':
        return s.Mixer()
    if t == 'MODU':
        return s.Modulator(phase_rad=e['ph']) if e['ph'] else s.Modulator()
    if t == 'H2':
        return s.Harmonic2Generator()
    if t == 'MS':
        return s.MeanSquareMixer()
    if t == 'GEN':
        kw = dict(amplitude=e['amp'])
        if e['ph']:
            kw['phase_rad'] = e['ph']
        if e['H']:
            kw['harmonic_gains'] = dict((h, complex(a, b)) for h, a, b in e['H'])
        if e['mult'] != 1:
            kw['multiple'] = e['mult']
        return s.SignalGenerator(F=freqs[e['F']], **kw)
    raise AssertionError(t)


_KEYRO = []


def key_readout():
    """a readout of one chosen frequency line, written against the public readout interface"""
    if not _KEYRO:
        from phasor import readouts, base
        import declarative as decl

        class KeyReadout(readouts.DCReadout):
            @decl.dproperty
            def want(self, val):
                return val

            @decl.mproperty
            def key(self):
                d = dict((f, n) for f, n in self.want if n)
                return base.DictKey({base.ClassicalFreqKey: base.FrequencyKey(d)})

            @property
            def line(self):
                sb = self.system.solution.driven_solution_get(self.port_set)
                return sb.solution.get((self.port, self.key), 0)
        _KEYRO.append(KeyReadout)
    return _KEYRO[0]


def reader(spec, built):
    """reads by index, from the given objects"""
    def read(i):
        o = built['r%d' % i]
        r = spec['reads'][i]
        if r['k'] == 'DC':
            return o.DC if r.get('tp') else o.DC_readout
        if r['k'] == 'K':
            return o.line
        if r['k'] in ('S', 'CLG'):
            return o.AC_sensitivity
        if r['k'] == 'OL':
            return o.AC_sensitivityOL
        return {'CLG': lambda: o.CLG, 'OLG': lambda: o.OLG, 'GP': lambda: o.GPlant}[r['q']]()
    return read


def build(spec, asm=None, system_kw=None, extra=None):
    from phasor import system, readouts
    from phasor.base import SystemElementBase
    from phasor.signals import ZPSOS
    F = spec['F']
    arr = isinstance(F, list)
    kw = dict(system_kw or {})
    if not kw.pop('omit_F', False):
        kw['F_AC'] = np.array(F) if arr else F
    sysobj = system.BGSystem(**kw)
    # feed-forward chains settle after as many iterations as mixing stages; noise-level lines never repeat exactly
    sysobj.max_N = 12
    A = Assembler(sysobj, spec['asm'] if asm is None else asm, SystemElementBase)
    els = spec['els']
    freqs = []
    for k, q in enumerate(spec.get('freqs', ())):
        freqs.append(sysobj.insert(system.Frequency(F_Hz=q['f'], **({} if q['order'] is None else {'order': q['order']})), 'Fgen%d' % k))
    decls, acts = [], []
    for i, e in enumerate(els):
        if e['t'] == 'SZP':
            def mk(built, e=e):
                return ZPSOS.SZPCascade(zeros_r=tuple(e['zr']), poles_r=tuple(e['pr']), zeros_c=tuple(cx(p) for p in e['zc']), poles_c=tuple(cx(p) for p in e['pc']))
            decls.append(('e%d' % i, (), mk))
        else:
            decls.append(('e%d' % i, (), lambda built, e=e: factory(e, sysobj, freqs, arr)))

    def get(built, side, ip):
        e = els[ip[0]]
        nm = (ins_of(e) if side == 'i' else outs_of(e))[ip[1]]
        return port(built['e%d' % ip[0]], e, side, nm)

    # some chains through single-input single-output elements are spelled as one bond_sequence
    edges = [(tuple(a), tuple(b)) for a, b in spec['edges']]
    used = set()
    for a, b in A.shuffle(edges):
        if (a, b) in used:
            continue
        used.add((a, b))
        seq = [('o', a), ('i', b)]
        while els[b[0]]['t'] in ('FILT', 'SZP', 'INT', 'MECH', 'FUN', 'GAIN', 'TFAC') and A.coin(.6):
            nxt = [x for x in edges if x[0] == (b[0], 0) and x not in used]
            if not nxt:
                break
            x = A.pick(nxt)
            used.add(x)
            b = x[1]
            seq.append(('i', b))
        style = A.pick([0, 1, 2, 3])

        def act(built, seq=tuple(seq), style=style):
            ps = [get(built, s, q) for s, q in seq]
            if len(ps) > 2:
                if style % 2:
                    sysobj.bond_sequence(*ps)
                else:
                    ps[0].bond_sequence(*ps[1:])
            elif style == 0:
                ps[0].bond(ps[1])
            elif style == 1:
                ps[1].bond(ps[0])
            elif style == 2:
                sysobj.bond(ps[0], ps[1])
            else:
                sysobj.bond(ps[1], ps[0])
        acts.append((tuple(sorted(set('e%d' % q[0] for _, q in seq))), act))

    def raw(built, P):
        p = get(built, P[0], P[1:])
        return p.i if P[0] == 'i' else p.o

    for ri, r in enumerate(spec['reads']):
        needs = tuple(sorted(set('e%d' % r[q][1] for q in ('D', 'N', 'Dr', 'Act', 'Sense', 'Drv') if r.get(q))))

        def mk(built, r=r):
            g = dict((q, raw(built, r[q])) for q in ('D', 'N', 'Dr', 'Act', 'Sense', 'Drv') if r.get(q))
            k = r['k']
            if k == 'DC':
                return readouts.Testpoint(port=g['N']) if r.get('tp') else readouts.DCReadout(port=g['N'])
            if k == 'K':
                return key_readout()(port=g['N'], want=tuple(zip(list(freqs) + [sysobj.F_AC], r['key'])))
            if k == 'S':
                return readouts.ACReadout(portD=g['D'], portN=g['N'], **({} if r['noise'] else {'include_noise': False}))
            if k == 'OL':
                return readouts.ACReadout(portD=g['D'], portN=g['N'], portDrv=g['Dr'], include_noise=False)
            if k == 'CLG':
                return readouts.ACReadoutCLG(portD=g['D'], portN=g['N'], **({} if r.get('noise') else {'include_noise': False}))
            return readouts.ACReadoutLG(portAct=g.get('Act'), portSense=g.get('Sense'), portDrv=g.get('Drv'), include_noise=False)
        decls.append(('r%d' % ri, needs, mk))
    if extra:
        extra(decls, acts, None)
    A.run(decls, acts)
    b = Built()
    b.sys = sysobj
    b.built = A.built
    b.spec = spec
    b.nreads = len(spec['reads'])

    b.read = reader(spec, b.built)
    return b


def shrink(spec):
    for i in range(len(spec['reads'])):
        if len(spec['reads']) > 1:
            yield dict(spec, reads=spec['reads'][:i] + spec['reads'][i + 1:])
    for i in range(len(spec['edges'])):
        yield dict(spec, edges=spec['edges'][:i] + spec['edges'][i + 1:])
    used = set()
    for r in spec['reads']:
        for q in ('D', 'N', 'Dr', 'Act', 'Sense', 'Drv'):
            if r.get(q):
                used.add(r[q][1])
    for a, b in spec['edges']:
        used |= {a[0], b[0]}
    for i in range(len(spec['els'])):
        if i not in used:
            m = lambda j: j - 1 if j > i else j
            reads = []
            for r in spec['reads']:
                r = dict(r)
                for q in ('D', 'N', 'Dr', 'Act', 'Sense', 'Drv'):
                    if r.get(q):
                        r[q] = [r[q][0], m(r[q][1]), r[q][2]]
                reads.append(r)
            yield dict(spec, els=spec['els'][:i] + spec['els'][i + 1:], reads=reads,
                       edges=[[[m(a[0]), a[1]], [m(b[0]), b[1]]] for a, b in spec['edges']])
    if isinstance(spec['F'], list):
        yield dict(spec, F=spec['F'][0], els=[dict(e, g=e['g'][0]) if e['t'] == 'TFAC' and isinstance(e['g'][0], list) else e for e in spec['els']])
    for i, e in enumerate(spec['els']):
        if e['t'] in ('FILT', 'SZP', 'INT', 'MECH', 'FUN', 'TFAC'):
            yield dict(spec, els=spec['els'][:i] + [dict(t='GAIN', g=2.)] + spec['els'][i + 1:])
        if e.get('ph'):
            yield dict(spec, els=spec['els'][:i] + [dict(e, ph=0)] + spec['els'][i + 1:])
