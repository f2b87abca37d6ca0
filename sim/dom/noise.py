"""Noise sources and noise readouts laid over the four domains, and the sum they must give.

A spec is the domain's spec plus: element key 'nz' (declared fluctuations on its terminals), read key 'g' (label of a
joint noise readout the read's output belongs to), 'ss' (sided_spectra of the system), 'ord' (seed of the reading order).
Reference: for every source its one-sided density and its transfer to every output, from the domain's own reference.
"""
import itertools

import numpy as np

from ..core import Skip, rnd
from . import conv, elec, mech, optic, sig
from .common import user

ONE = ['one-sided', 'one sided', 'one', 'single-sided', 'single sided', 'single']
TWO = ['two-sided', 'two sided', 'two', 'double-sided', 'double sided', 'double']
DOM = dict(elec=elec, mech=mech, sig=sig, optic=optic, conv=conv)
K4 = 4 * 1.380658e-23


def density(z, F):
    """declared density (in its declared sidedness) at frequency F"""
    return z[2] * (1 + z[3] / np.abs(F))


def one_sided(z, F):
    return density(z, F) * (2 if z[4] in TWO else 1)


def gen(rng, tier, dom=None):
    dom = dom or rng.choice(['elec', 'elec', 'elec', 'mech', 'mech', 'sig', 'sig', 'optic'])
    D = DOM[dom]
    spec = D.gen(rng, tier, small=rng.random() < .6, **({'noise': True} if dom == 'conv' else {}))
    spec['ss'] = rng.choice([1, 1, 1, 2])
    spec['ord'] = rng.getrandbits(24)
    if dom in ('elec', 'mech'):
        spec['johnson'] = rng.random() < .7
    if dom == 'elec':
        for e in spec['els']:
            if e['t'] == 'OP' and rng.random() < .6:
                e['vn'], e['in'] = rnd(rng, 1e-18, 1e-14), rnd(rng, 1e-25, 1e-18)
    if dom not in ('optic', 'conv'):
        terms = []
        for i, e in enumerate(spec['els']):
            n = {'elec': lambda: len(e['n']), 'mech': lambda: len(mech.ports_of(e)), 'sig': lambda: len(sig.ins_of(e))}[dom]()
            terms += [(i, p) for p in range(n)]
        if not terms:
            terms = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if not terms:
                break
            # prefer terminals that are also read
            i, p = rng.choice(terms)
            if dom in ('elec', 'mech') and rng.random() < .5:
                r = rng.choice(spec['reads'])
                i, p = rng.choice([(r['e'], r['p'])] + ([tuple(r['N'])] if 'N' in r else []))
            kind = {'elec': ['V', 'C'], 'mech': ['V'], 'sig': ['W', 'P']}[dom]
            k = rng.choice(kind)
            mag = rnd(rng, 1e-3, 10)
            if dom == 'elec' and k == 'C':
                mag *= 1e-3
            F0 = 0 if k == 'W' or rng.random() < .4 else rnd(rng, .01, 1e3)
            spec['els'][i].setdefault('nz', []).append([p, k, mag, F0, rng.choice(ONE + TWO)])
    if dom == 'sig':
        keep = [r for r in spec['reads'] if r['k'] in ('S', 'CLG')]
        for r in spec['reads']:
            r['noise'] = True
        spec['reads'] = keep or [dict(k='S', D=r.get('N') or r.get('Sense') or r.get('Act'), N=r.get('N') or r.get('Sense') or r.get('Act'), noise=True)
                                 for r in spec['reads'][:1]]
        if spec['kind'] == 'mod':
            for r in spec['reads']:
                r['k'] = 'S'
                r.pop('key', None)
                if r['N'][0] == 'i':
                    # inside a mixing element an input port may carry more than the signal bonded to it
                    outs = [['o', i, p] for i, e in enumerate(spec['els']) for p in range(len(sig.outs_of(e)))]
                    r['N'] = rng.choice(outs)
    if dom == 'optic':
        for e in spec['els']:
            e.pop('bsphase', None)
    for r in spec['reads']:
        if rng.random() < .5:
            r['g'] = rng.randrange(2)
    return spec


# ---- reference -------------------------------------------------------------------------------------

def _net_sources(spec):
    """(label, element, terminal, kind, one-sided density function)"""
    KT4 = K4 * spec.get('temp', 299)
    out = []
    for i, e in enumerate(spec['els']):
        for k, z in enumerate(e.get('nz', ())):
            out.append((('nz', i, k), i, z[0], z[1], lambda F, z=z: one_sided(z, F)))
        t = e['t']
        if spec['dom'] == 'elec':
            if t == 'OP' and 'vn' in e:
                out.append((('V_noise', i), i, 1, 'V', lambda F, e=e: e['vn'] * (1 + 10 / F)))
                out.append((('I_noise_n', i), i, 1, 'C', lambda F, e=e: e['in']))
                out.append((('I_noise_p', i), i, 0, 'C', lambda F, e=e: e['in']))
            if spec['johnson']:
                R = e.get('R', 0) if t in ('R', 'L', 'TR', 'TL') else (50. if t == 'TM' else 0)
                if R:
                    out.append((('J', i), i, 0, 'V', lambda F, R=R: KT4 * R))
        elif spec['johnson']:
            if t in ('D', 'TD'):
                out.append((('J', i), i, 0, 'V', lambda F, R=e['R']: KT4 / (R * (2 * np.pi * F) ** 2)))
            elif t in ('K', 'TK') and e.get('phi'):
                out.append((('J', i), i, 0, 'V', lambda F, e=e: KT4 * e['phi'] / (2 * np.pi * F * e['k'])))
            elif t == 'XR':
                for a in range(3):
                    out.append((('JX', i, 'XYZ'[a]), i, a, 'V', lambda F, R=e['R'][a]: KT4 / (R * (2 * np.pi * F) ** 2)))
    return out


def _net_ref(spec):
    """per source: density (array over F), transfer to every read (reads x F), tolerance"""
    dom = spec['dom']
    srcs = _net_sources(spec)
    els = [dict(e) for e in spec['els']]
    # every terminal with a fluctuation gets a node of its own behind an ideal series source, with a shunt current source
    split = {}
    nm = (lambda k: 10 ** 6 + k) if dom == 'elec' else (lambda k: 'zz%d' % k)
    for lab, i, p, kind, S in srcs:
        if (i, p) in split:
            continue
        nn = nm(len(split))
        if dom == 'elec':
            old = els[i]['n'][p]
            els[i] = dict(els[i], n=els[i]['n'][:p] + [nn] + els[i]['n'][p + 1:])
        else:
            old = mech.ports_of(els[i])[p][1]
            els[i] = dict(els[i], rn=dict(els[i].get('rn', {}), **{p: nn}) if False else {**els[i].get('rn', {}), p: nn})
        split[i, p] = (nn, old)
    vb, cs = {}, {}
    for (i, p), (nn, old) in split.items():
        vb[i, p] = len(els)
        els.append(dict(t='VB' if dom == 'elec' else 'DB', n=[nn, old], dc=0, idc=0))
        cs[i, p] = len(els)
        els.append(dict(t='I' if dom == 'elec' else 'FS', n=[nn], dc=0))
    s2 = dict(spec, els=els)
    if dom == 'elec':
        stamp, z0, ts, s2v = None, elec.Z0, 2e-8, s2
    else:
        stamp, z0, ts = (lambda s, F: mech.stamp(s2, F)), 1., 2e-9
        s2v = mech._scalar(s2)
    Fs = spec['F'] if isinstance(spec['F'], list) else [spec['F']]
    nr = len(spec['reads'])
    H = np.zeros((len(srcs), nr, len(Fs)), dtype=complex)
    T = np.zeros((len(srcs), nr, len(Fs)))
    Sd = np.zeros((len(srcs), len(Fs)))
    for fi, F in enumerate(Fs):
        rhs = [elec.drive_rhs(vb[i, p] if kind == 'V' else cs[i, p]) for lab, i, p, kind, S in srcs]
        X, nidx, pidx, cond = elec.solve(s2v, F, rhs or [lambda src: []], stamp)
        nn = len(nidx)
        for k, (lab, i, p, kind, S) in enumerate(srcs):
            Sd[k, fi] = S(F)
            scale = max(np.max(np.abs(X[:nn, k])), np.max(np.abs(X[nn:, k])) * z0)
            for ri, r in enumerate(spec['reads']):
                def volt(i, p):
                    node = split[i, p][1] if (i, p) in split else s2v['els'][i]['n'][p]
                    return X[nidx[node], k]
                if r['k'] == 'V':
                    v = volt(r['e'], r['p'])
                    if 'N' in r:
                        v = v - volt(*r['N'])
                else:
                    ip = (r['e'], r['p'])
                    # the current from the node into the terminal
                    v = X[pidx[vb[ip], 1] if ip in split else pidx[ip], k] * (1 if r['dir'] == 'in' else -1)
                H[k, ri, fi] = v
                T[k, ri, fi] = ts * scale / (1 if r['k'] == 'V' else z0)
    return [s[0] for s in srcs], Sd, H, T


def _sig_ref(spec):
    labels, Sd, H, T = [], [], [], []
    srcs = [(('nz', i, k), i, z) for i, e in enumerate(spec['els']) for k, z in enumerate(e.get('nz', ()))]
    reads = spec['reads']
    if spec['kind'] == 'lin':
        arr = isinstance(spec['F'], list)
        Fs = spec['F'] if arr else [spec['F']]
        Rs = [sig.LinRef(spec, f, min(Fs), k) for k, f in enumerate(Fs)]
        for lab, i, z in srcs:
            labels.append(lab)
            Sd.append([one_sided(z, f) for f in Fs])
            H.append([[R.get(['i', i, z[0]], r['N']) for R in Rs] for r in reads])
            T.append([[R.cond * 1e-11 * np.max(np.abs(R.inv)) for R in Rs] for r in reads])
    else:
        # folding: every line the mixers bring to the readout frequency contributes its own density
        R0 = sig.ModRef(spec)
        lines = list(itertools.product(*[range(-o, o + 1) for o in R0.order[:-1]]))
        z0 = (0,) * (R0.nk - 1)
        for lab, i, z in srcs:
            for n in lines:
                Q = sig.ModRef(spec, ['i', i, z[0]], tuple(n) + (1,))
                f = Q.f(tuple(n) + (1,))
                h = [complex(Q.pert[tuple(r['N'])].get(z0 + (1,), 0)) for r in reads]
                if not any(h):
                    continue
                labels.append(lab)
                Sd.append([one_sided(z, f)])
                H.append([[x] for x in h])
                T.append([[Q.mag ** 2 * 1e-11] for x in h])
        Fs = [spec['F']]
    nr = len(reads)
    return (labels, np.array(Sd, dtype=float).reshape(len(labels), len(Fs)),
            np.array(H, dtype=complex).reshape(len(labels), nr, len(Fs)), np.array(T, dtype=float).reshape(len(labels), nr, len(Fs)))


def _optic_ref(spec):
    """vacuum entering through every open port, loss port and laser, beating with the steady light on each detector"""
    arr = isinstance(spec['F'], list)
    Fs = spec['F'] if arr else [spec['F']]
    q = 6.6260700408e-34 * 299792458. / 1064e-9
    nr = len(spec['reads'])
    Hs, Ts = [], []
    for F in Fs:
        R = optic.Ref(spec, F)
        els = spec['els']
        ins = []        # injected vacuum: (row of the outgoing-field vector, amplitude) columns
        for i, e in enumerate(els):
            P = optic.ports_of(e)
            G = optic.coupling(e, 0.)
            loss = np.ones((len(P), 2))
            for a, b, M in G:
                loss[b] -= np.sum(np.abs(M) ** 2, axis=1)
                if R.part.get((i, a)) is None:
                    # nothing bonded: vacuum comes in
                    for pol in (0, 1):
                        col = np.zeros(R.N, dtype=complex)
                        for a2, b2, M2 in G:
                            if a2 == a:
                                col[R.idx[i, b2]:R.idx[i, b2] + 2] += M2[:, pol]
                        ins.append(((i, a, pol), col))
            if e['t'] in ('M', 'PM', 'LAS', 'PD'):
                for b in range(len(P)):
                    for pol in (0, 1):
                        if loss[b, pol] > 1e-12:
                            col = np.zeros(R.N, dtype=complex)
                            col[R.idx[i, b] + pol] = np.sqrt(loss[b, pol])
                            ins.append(((i, 'loss', b, pol), col))
        seen = set()
        ins = [x for x in ins if not (x[0] in seen or seen.add(x[0]))]
        B = np.array([c for _, c in ins]).T if ins else np.zeros((R.N, 0))
        cols = []
        mag = []
        for f, x in R.static.values():
            R.check_selectors(x)
            for s in (1, -1):
                Y = R.solve(f + s * F) @ B
                for k in range(Y.shape[1]):
                    R.check_selectors(Y[:, k])
                rows = []
                for r in spec['reads']:
                    A = R.inp(x, r['pd'], 0)
                    src = R.part.get((r['pd'], 0))
                    if src is None:
                        row = np.zeros(Y.shape[1], dtype=complex)
                    else:
                        row = np.conj(A) @ Y[R.idx[src]:R.idx[src] + 2]
                    rows.append(row if s == 1 else np.conj(row))
                cols.append(np.array(rows))
                mag.append(np.max(np.abs(x)) * (np.max(np.abs(Y)) if Y.size else 0) * R.cond * 1e-11)
        Hs.append(np.concatenate(cols, axis=1))
        Ts.append(max(mag))
    H = np.array(Hs).transpose(2, 1, 0)
    T = np.ones(H.shape) * np.array(Ts)
    # two-sided density q/2 for each
    return None, np.full((H.shape[0], len(Fs)), q), H, T


def _conv_once(spec, euler):
    arr = isinstance(spec['F'], list)
    Fs = spec['F'] if arr else [spec['F']]
    q = 6.6260700408e-34 * 299792458. / 1064e-9
    Hs, mag = [], 0.
    for F in Fs:
        R = conv.Ref(spec, F, noise=True, euler=euler)
        vac = [k for k, x in enumerate(R.pert) if x[0] == 'vac']
        Hs.append([R.ac(r['pd'])[vac] for r in spec['reads']])
        mag = np.sqrt(R.power)
        S = [q * (R.pert[k][3] + 1) for k in vac]
    H = np.array(Hs).transpose(2, 1, 0)
    return np.array(S)[:, None] * np.ones(len(Fs)), H, mag


def _conv_ref(spec, euler=None, tol=True):
    """as above; the quanta of the harmonic are twice as large"""
    S, H, mag = _conv_once(spec, euler)
    T = np.ones(H.shape) * mag * 1e-11
    if tol and conv.stepped(spec):
        E = _conv_once(spec, 1)[1]
        T += 4 * np.max(np.abs(H - E))
    return None, S, H, T


def ref(spec):
    if spec['dom'] == 'conv':
        return _conv_ref(spec)
    if spec['dom'] in ('elec', 'mech'):
        return _net_ref(spec)
    if spec['dom'] == 'sig':
        return _sig_ref(spec)
    return _optic_ref(spec)


# ---- building ----------------------------------------------------------------------------------------

def read_port(spec, built, ri):
    r = spec['reads'][ri]
    d = spec['dom']
    if d == 'elec':
        return (built['r%d' % ri].V if r['k'] == 'V' else built['r%d' % ri].I).o
    if d == 'mech':
        return (built['r%d' % ri].d if r['k'] == 'V' else built['r%d' % ri].F).o
    if d in ('optic', 'conv'):
        return built['e%d' % r['pd']].Wpd.o
    P = r['N']
    e = spec['els'][P[1]]
    p = sig.port(built['e%d' % P[1]], e, P[0], (sig.ins_of(e) if P[0] == 'i' else sig.outs_of(e))[P[2]])
    return p.i if P[0] == 'i' else p.o


def groups(spec):
    g = {}
    for i, r in enumerate(spec['reads']):
        if r.get('g') is not None:
            g.setdefault(r['g'], []).append(i)
    return g


def build(spec, asm=None, system_kw=None, extra2=None):
    from phasor import readouts
    D = DOM[spec['dom']]
    kw = dict(system_kw or {})
    if spec['ss'] != 1:
        kw['sided_spectra'] = spec['ss']

    def extra(decls, acts, module):
        for i, e in enumerate(spec['els']):
            for k, z in enumerate(e.get('nz', ())):
                def mk(built, i=i, e=e, z=z):
                    obj = built['e%d' % i]
                    f = lambda F: (user(), density(z, F))[1]
                    if spec['dom'] == 'elec':
                        term = getattr(obj, elec.PORTS[e['t']][z[0]])
                        if z[1] == 'V':
                            return module.VoltageFluctuation(port=term, Vsq_Hz_by_freq=f, sided=z[4])
                        return module.CurrentFluctuation(port=term, Isq_Hz_by_freq=f, sided=z[4])
                    if spec['dom'] == 'mech':
                        from phasor.mechanical import noise as mnoise
                        return mnoise.DisplacementFluctuation(port=mech.dotted(obj, mech.ports_of(e)[z[0]][0]), dsq_Hz_by_freq=f, sided=z[4])
                    from phasor.signals import noise as snoise
                    term = sig.port(obj, e, 'i', sig.ins_of(e)[z[0]])
                    if z[1] == 'W':
                        return snoise.WhiteNoise(port=term, magnitude_ASD=z[2] ** .5, sided=z[4])
                    return snoise.PSDFunctionNoise(port=term, PSD_function=f, sided=z[4])
                decls.append(('nz%d_%d' % (i, k), ('e%d' % i,), mk))
        for i, r in enumerate(spec['reads']):
            # reads without an AC readout of their own (or with noise switched off) get a plain noise readout
            key = 'r%dn' % i
            need = tuple('r%d' % i for _ in [0] if spec['dom'] in ('elec', 'mech')) or _needs(spec, i)
            if not has_ac(r):
                decls.append((key, need, lambda built, i=i: readouts.NoiseReadout(portN=read_port(spec, built, i))))
        for g, idx in sorted(groups(spec).items()):
            need = set()
            for i in idx:
                need |= set(['r%d' % i] if spec['dom'] in ('elec', 'mech') else _needs(spec, i))
            decls.append(('g%d' % g, tuple(sorted(need)), lambda built, idx=idx: readouts.NoiseReadout(
                port_map=dict(('p%d' % i, read_port(spec, built, i)) for i in idx))))
        if extra2:
            extra2(decls, acts, module)
    b = D.build(spec, asm=asm, system_kw=kw, extra=extra)
    return b


def _needs(spec, i):
    r = spec['reads'][i]
    return ('e%d' % (r['pd'] if spec['dom'] in ('optic', 'conv') else r['N'][1]),)


def has_ac(r):
    return r.get('d') != 'DC' and r['k'] not in ('DC', 'K')


def source_objects(spec, b, labels):
    out = {}
    for lab in labels or ():
        if lab[0] == 'nz':
            o = b.built['nz%d_%d' % lab[1:]]
        elif lab[0] == 'J':
            o = b.built['e%d' % lab[1]].johnson_noise
        elif lab[0] == 'JX':
            o = getattr(b.built['e%d' % lab[1]], lab[2]).johnson_noise
        else:
            o = getattr(b.built['e%d' % lab[1]], lab[0])
        out[lab] = o
    return out


def shrink(spec):
    for s in DOM[spec['dom']].shrink(spec):
        if s['reads']:
            yield s
    for i, e in enumerate(spec['els']):
        if 'nz' in e:
            for k in range(len(e['nz'])):
                z = e['nz'][:k] + e['nz'][k + 1:]
                e2 = dict(e, nz=z)
                if not z:
                    del e2['nz']
                yield dict(spec, els=spec['els'][:i] + [e2] + spec['els'][i + 1:])
                if e['nz'][k][3]:
                    z = [list(q) for q in e['nz']]
                    z[k][3] = 0
                    yield dict(spec, els=spec['els'][:i] + [dict(e, nz=z)] + spec['els'][i + 1:])
        if 'vn' in e:
            e2 = dict(e)
            del e2['vn'], e2['in']
            yield dict(spec, els=spec['els'][:i] + [e2] + spec['els'][i + 1:])
    for i, r in enumerate(spec['reads']):
        if r.get('g') is not None:
            r2 = dict(r)
            del r2['g']
            yield dict(spec, reads=spec['reads'][:i] + [r2] + spec['reads'][i + 1:])
    if spec['ss'] != 1:
        yield dict(spec, ss=1)
    if spec['ord']:
        yield dict(spec, ord=0)
