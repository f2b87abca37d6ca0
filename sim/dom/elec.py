"""Random linear circuits, their spelling in phasor, and a nodal-analysis reference.

Reference: modified nodal analysis, one unknown per node voltage and per port current of
multi-constraint elements; nothing of phasor's wave variables is used.
"""
import random

import numpy as np

from ..core import Skip, rnd
from .common import Assembler

PORTS = dict(R=('pe_A', 'pe_B'), L=('pe_A', 'pe_B'), C=('pe_A', 'pe_B'), K=('pe_A', 'pe_B'),
             TR=('pe_A',), TL=('pe_A',), TC=('pe_A',), TS=('pe_A',), TO=('pe_A',), TM=('pe_A',),
             V=('pe_A',), I=('pe_A',), VB=('pe_A', 'pe_B'), IB=('pe_A', 'pe_B'), OP=('in_p', 'in_n', 'out'), VA=('in_n', 'out'),
             X=('pe_A', 'pe_B', 'pe_C', 'pe_D'))
DRIVE = dict(V='V', VB='V', I='ps_In', IB='ps_In')
Z0 = 50.


def gen(rng, tier='quick', noise=False, dc=True, small=False, array=None):
    n = rng.randint(1, 3 if small else 5)
    nodes = list(range(1, n + 1))
    els = []

    def add(t, *nd, **kw):
        els.append(dict(t=t, n=list(nd), **kw))

    kinds2 = rng.choice([['R'], ['R', 'C'], ['R', 'L'], ['R', 'L', 'C'], ['R', 'L', 'C', 'K']])

    def two(a, b):
        t = rng.choice(kinds2)
        if t == 'R':
            add('R', a, b, R=rnd(rng, 1, 5e3))
        elif t == 'L':
            add('L', a, b, L=rnd(rng, 1e-4, 1e-1), R=rng.choice([0, rnd(rng, .1, 100)]))
        elif t == 'C':
            add('C', a, b, C=rnd(rng, 1e-8, 1e-5))
        else:
            add('K', a, b, ns=rnd(rng, 1, 1e4))
    for i in nodes[1:]:
        two(rng.choice(nodes[:i - 1]), i)
    for _ in range(rng.choice([0, 0, 1, 2])):
        if n > 1:
            a, b = rng.sample(nodes, 2)
            two(a, b)
    for nd in nodes:
        r = rng.random()
        if r < .35:
            add('TR', nd, R=rnd(rng, 1, 5e3))
        elif r < .45:
            add('TC', nd, C=rnd(rng, 1e-8, 1e-5))
        elif r < .5:
            add('TL', nd, L=rnd(rng, 1e-4, 1e-1), R=rng.choice([0, rnd(rng, .1, 100)]))
        elif r < .55:
            add('TM', nd)
        elif r < .6:
            add('TO', nd)
    add('TR', rng.choice(nodes), R=rnd(rng, 1, 5e3))
    if rng.random() < .15 and n > 2:
        add('TS', rng.choice(nodes))
    has_x = False
    if rng.random() < (.15 if not small else 0) and n >= 2:
        c, d = n + 1, n + 2
        add('X', rng.choice(nodes), rng.choice(nodes), c, d, L1=rnd(rng, 1e-4, 1e-2), L2=rnd(rng, 1e-4, 1e-2),
            k=rng.choice([1, .9]))
        add('TR', c, R=rnd(rng, 1, 5e3))
        add('TR', d, R=rnd(rng, 1, 5e3))
        nodes += [c, d]
        has_x = True
    if rng.random() < (.3 if not small else .1):
        out = max(nodes) + 1
        t = rng.choice(['OP', 'OP', 'VA'])
        if t == 'OP':
            add('OP', rng.choice(nodes), rng.choice(nodes), out, G=rnd(rng, 1, 1e4), pole=rng.choice([0, rnd(rng, 1, 1e4)]))
        else:
            add('VA', rng.choice(nodes), out, G=rnd(rng, .1, 100), Yi=rng.choice([0, 1e-3]), Zo=rng.choice([0, 50., 10.]))
        if rng.random() < .7:
            els.append(dict(t='R', n=[out, rng.choice(nodes)], R=rnd(rng, 10, 1e4)))
        else:
            add('TR', out, R=rnd(rng, 1, 5e3))
        nodes.append(out)
    nsrc = rng.choice([1, 1, 2, 3])
    for i in range(nsrc):
        t = rng.choice(['V', 'I', 'I', 'VB', 'IB'])
        dcv = rng.choice([0, rnd(rng, .01, 10), -rnd(rng, .01, 10)]) if (dc and not has_x) else 0
        if t in ('V', 'VB') and rng.random() < .6:
            # in series with a resistor, so ideal sources do not fight
            nn = max(nodes) + 1
            els.append(dict(t='R', n=[nn, rng.choice(nodes)], R=rnd(rng, 1, 1e3)))
            nodes.append(nn)
            tgt = nn
        else:
            tgt = rng.choice(nodes)
        if t == 'V':
            add('V', tgt, dc=dcv)
        elif t == 'I':
            add('I', tgt, dc=dcv)
        elif t == 'VB':
            add('VB', tgt, rng.choice(nodes), dc=dcv, idc=rng.choice([0, 0, rnd(rng, .001, 1)]) if (dc and not has_x) else 0)
        else:
            add('IB', tgt, rng.choice(nodes), dc=dcv)
    if array is None:
        array = rng.random() < .3
    F = [rnd(rng, 1, 1e4) for _ in range(rng.choice([2, 3, 5]))] if array else rnd(rng, 1, 1e4)
    reads = []
    srcs = [i for i, e in enumerate(els) if e['t'] in DRIVE]
    for _ in range(rng.choice([1, 2, 3, 4])):
        i = rng.randrange(len(els))
        p = rng.randrange(len(PORTS[els[i]['t']]))
        drive = 'DC' if (dc and not has_x and rng.random() < .4) else rng.choice(srcs)
        if rng.random() < .6:
            r = dict(k='V', e=i, p=p, d=drive)
            if rng.random() < .25:
                j = rng.randrange(len(els))
                q = rng.randrange(len(PORTS[els[j]['t']]))
                if (j, q) != (i, p):
                    r['N'] = [j, q]
            reads.append(r)
        else:
            reads.append(dict(k='I', e=i, p=p, d=drive, dir=rng.choice(['in', 'out'])))
    if has_x and all(r['d'] == 'DC' for r in reads):
        reads[0]['d'] = srcs[0]
    spec = dict(dom='elec', els=els, F=F, reads=reads, asm=rng.getrandbits(30), johnson=rng.random() < .5)
    if rng.random() < .2:
        spec['alias'] = rng.getrandbits(20)
    return spec


def node_ports(spec):
    nodes = {}
    for i, e in enumerate(spec['els']):
        for p, nd in enumerate(e['n']):
            nodes.setdefault(nd, []).append((i, p))
    return nodes


# ---- reference --------------------------------------------------------------------------------

def stamp(spec, F):
    """square system over [node voltages | port currents into elements] at one frequency (F=0: DC)"""
    nodes = sorted(node_ports(spec))
    nidx = {nd: k for k, nd in enumerate(nodes)}
    pidx = {}
    c = len(nodes)
    for i, e in enumerate(spec['els']):
        for p in range(len(e['n'])):
            pidx[i, p] = c
            c += 1
    A = np.zeros((c, c), dtype=complex)
    w = 2j * np.pi * F
    # KCL
    for nd, plist in node_ports(spec).items():
        for ip in plist:
            A[nidx[nd], pidx[ip]] = 1
    row = len(nodes)
    src = {}
    for i, e in enumerate(spec['els']):
        t = e['t']
        v = [nidx[nd] for nd in e['n']]
        ii = [pidx[i, p] for p in range(len(e['n']))]

        def eq(**kw):
            nonlocal row
            row += 1
            return row - 1
        if t in ('R', 'L', 'C'):
            r = eq()
            A[r, ii[0]] = 1
            A[r, ii[1]] = 1
            r = eq()
            if t == 'C':
                y = w * e['C']
                A[r, ii[0]] = -1
                A[r, v[0]] += y
                A[r, v[1]] -= y
            else:
                z = e['R'] if t == 'R' else e['R'] + w * e['L']
                A[r, v[0]] += 1
                A[r, v[1]] -= 1
                A[r, ii[0]] = -z
        elif t == 'K':
            # matched-line relations: forward and backward waves V+ZI delayed
            ph = np.exp(-w * e['ns'] * 1e-9)
            for a, b in ((0, 1), (1, 0)):
                r = eq()
                # wave leaving b = wave entering a times ph: (V_b - Z I_b) = ph (V_a + Z I_a), I into element
                A[r, v[b]] += 1
                A[r, ii[b]] -= Z0
                A[r, v[a]] -= ph
                A[r, ii[a]] -= ph * Z0
        elif t in ('TR', 'TL', 'TM', 'TS'):
            z = {'TR': lambda: e['R'], 'TL': lambda: e['R'] + w * e['L'], 'TM': lambda: Z0, 'TS': lambda: 0}[t]()
            r = eq()
            A[r, v[0]] = 1
            A[r, ii[0]] = -z
        elif t in ('TC', 'TO'):
            y = w * e['C'] if t == 'TC' else 0
            r = eq()
            A[r, ii[0]] = -1
            A[r, v[0]] = y
        elif t == 'V':
            r = eq()
            A[r, v[0]] = 1
            src[i] = [(r, 1)]
        elif t == 'I':
            r = eq()
            A[r, ii[0]] = -1
            src[i] = [(r, 1)]
        elif t == 'VB':
            r = eq()
            A[r, v[0]] += 1
            A[r, v[1]] -= 1
            src[i] = [(r, 1)]
            r = eq()
            A[r, ii[0]] = -1
            A[r, ii[1]] = -1
            src[i, 'I'] = [(r, 1)]
        elif t == 'IB':
            r = eq()
            A[r, ii[0]] = -1
            src[i] = [(r, 1)]
            r = eq()
            A[r, ii[0]] = 1
            A[r, ii[1]] = 1
        elif t == 'OP':
            for k in (0, 1):
                r = eq()
                A[r, ii[k]] = 1
            g = gain(e, F)
            r = eq()
            A[r, v[2]] += 1
            A[r, v[0]] -= g
            A[r, v[1]] += g
        elif t == 'VA':
            r = eq()
            A[r, ii[0]] = 1
            A[r, v[0]] -= e['Yi']
            r = eq()
            A[r, v[1]] += 1
            A[r, ii[1]] -= e['Zo']
            A[r, v[0]] += e['G'] * vdiv(e)
        elif t == 'X':
            z11, z22 = w * e['L1'], w * e['L2']
            z12 = w * e['k'] * (e['L1'] * e['L2']) ** .5
            for a, b, zs, zm in ((0, 1, z11, z12), (2, 3, z22, z12)):
                o = (2, 3) if a == 0 else (0, 1)
                r = eq()
                A[r, ii[a]] = 1
                A[r, ii[b]] = 1
                r = eq()
                A[r, ii[a]] = -1
                A[r, v[a]] += 1 / zs
                A[r, v[b]] -= 1 / zs
                A[r, v[o[0]]] += 1 / zm
                A[r, v[o[1]]] -= 1 / zm
        else:
            raise AssertionError(t)
    assert row == c, (row, c)
    return A, nidx, pidx, src


def vdiv(e):
    return 1


def gain(e, F):
    return e['G'] / (1 + 1j * F / e['pole']) if e['pole'] else e['G']


STAMP = stamp


def solve(spec, F, rhs, stamp=None):
    """rhs: list of right-hand-side vectors as dict row->value built by the caller from stamp()"""
    A, nidx, pidx, src = (stamp or STAMP)(spec, F)
    s = np.max(np.abs(A), axis=1)
    if np.any(s == 0):
        raise Skip('singular')
    As = A / s[:, None]
    cs = np.max(np.abs(As), axis=0)
    if np.any(cs == 0):
        raise Skip('singular')
    As = As / cs[None, :]
    u, sv, vh = np.linalg.svd(As)
    if sv[-1] < 1e-9 * sv[0]:
        raise Skip('ill-conditioned')
    B = np.zeros((A.shape[0], len(rhs)), dtype=complex)
    for j, f in enumerate(rhs):
        for r, val in f(src):
            B[r, j] += val
    X = np.linalg.solve(As, B / s[:, None]) / cs[:, None]
    return X, nidx, pidx, sv[0] / sv[-1]


def dc_rhs(spec):
    def f(src):
        out = []
        for i, e in enumerate(spec['els']):
            if e.get('dc'):
                out += [(r, c * e['dc']) for r, c in src[i]]
            if e.get('idc'):
                out += [(r, c * e['idc']) for r, c in src[i, 'I']]
        return out
    return f


def drive_rhs(i):
    return lambda src: src[i]


def read_val(spec, r, X, nidx, pidx, j):
    if r['k'] == 'V':
        v = X[nidx[spec['els'][r['e']]['n'][r['p']]], j]
        if 'N' in r:
            v = v - X[nidx[spec['els'][r['N'][0]]['n'][r['N'][1]]], j]
        return v
    return X[pidx[r['e'], r['p']], j] * (1 if r['dir'] == 'in' else -1)


def ref(spec, stamp=None, z0=Z0, tolscale=2e-8):
    """-> list of (value, absolute tolerance) per read"""
    Fs = spec['F'] if isinstance(spec['F'], list) else [spec['F']]
    out = [None] * len(spec['reads'])
    groups = {}
    for i, r in enumerate(spec['reads']):
        groups.setdefault(r['d'], []).append(i)
    for d, idxs in groups.items():
        vals = {i: [] for i in idxs}
        tol = {i: 0 for i in idxs}
        for F in ([0.] if d == 'DC' else Fs):
            X, nidx, pidx, cond = solve(spec, F, [dc_rhs(spec) if d == 'DC' else drive_rhs(d)], stamp)
            nn = len(nidx)
            vs = np.max(np.abs(X[:nn])) if nn else 0
            cs = np.max(np.abs(X[nn:]))
            scale = max(vs, cs * z0)
            for i in idxs:
                r = spec['reads'][i]
                vals[i].append(read_val(spec, r, X, nidx, pidx, 0))
                # wave variables mix V and Z I: rounding is relative to the larger of the two
                tol[i] = max(tol[i], tolscale * scale / (1 if r['k'] == 'V' else z0))
        for i in idxs:
            v = vals[i]
            if d == 'DC':
                v = v[0].real
            else:
                v = np.array(v) if isinstance(spec['F'], list) else v[0]
            out[i] = (v, tol[i])
    return out


# ---- phasor -----------------------------------------------------------------------------------

class Built(object):
    pass


def factory(e, el):
    t = e['t']
    if t == 'R':
        return el.SeriesResistor(resistance_Ohms=e['R'])
    if t == 'L':
        return el.SeriesInductor(inductance_Henries=e['L'], resistance_Ohms=e['R'])
    if t == 'C':
        return el.SeriesCapacitor(capacitance_Farads=e['C'])
    if t == 'K':
        return el.Cable(length_ns=e['ns'])
    if t == 'TR':
        return el.TerminatorResistor(resistance_Ohms=e['R'])
    if t == 'TL':
        return el.TerminatorInductor(inductance_Henries=e['L'], resistance_Ohms=e['R'])
    if t == 'TC':
        return el.TerminatorCapacitor(capacitance_Farads=e['C'])
    if t == 'TS':
        return el.TerminatorShorted()
    if t == 'TO':
        return el.TerminatorOpen()
    if t == 'TM':
        return el.TerminatorMatched()
    if t == 'V':
        return el.VoltageSource(V_DC=e['dc'])
    if t == 'I':
        return el.CurrentSource(I_DC=e['dc'])
    if t == 'VB':
        return el.VoltageSourceBalanced(V_DC=e['dc'], I_DC=e['idc'])
    if t == 'IB':
        return el.CurrentSourceBalanced(I_DC=e['dc'])
    if t == 'OP':
        g = dict(e)
        if 'vn' in e:
            return el.ImperfectOpAmp(gain_by_freq=lambda F: gain(g, F), V_spectrum_one_sided=lambda F: g['vn'] * (1 + 10 / abs(F)),
                                     I_spectrum_one_sided=lambda F: g['in'])
        return el.OpAmp(gain_by_freq=lambda F: gain(g, F))
    if t == 'VA':
        return el.VAmp(gain_by_freq=lambda F: e['G'], Y_input=e['Yi'], Z_output=e['Zo'])
    if t == 'X':
        kw = {}
        if e['k'] != 1:
            k = e['k']
            kw['transformer_k_by_freq'] = lambda F: k
        return el.Transformer(L1_inductance_Henries=e['L1'], L2_inductance_Henries=e['L2'], **kw)
    raise AssertionError(t)


def reader(spec, built):
    """reads by index, from the given objects"""
    def read(i):
        r = spec['reads'][i]
        o = built['r%do' % i]
        return o.DC_readout if r['d'] == 'DC' else o.AC_sensitivity
    return read


def build(spec, asm=None, system_kw=None, noise=False, extra=None):
    import phasor.electronics as el
    from phasor import system, readouts
    from phasor.base import SystemElementBase
    F = spec['F']
    kw = dict(system_kw or {})
    if not kw.pop('omit_F', False):
        kw['F_AC'] = np.array(F) if isinstance(F, list) else F
    sysobj = system.BGSystem(include_johnson_noise=spec['johnson'], **kw)
    A = Assembler(sysobj, spec['asm'] if asm is None else asm, SystemElementBase)
    decls, acts = [], []
    for i, e in enumerate(spec['els']):
        decls.append(('e%d' % i, (), lambda built, e=e: factory(e, el)))
    for nd, plist in sorted(node_ports(spec).items()):
        ports = [('e%d' % i, PORTS[spec['els'][i]['t']][p]) for i, p in plist]
        d, a = A.join(nd, ports, lambda **kw: el.Connection(**kw), lambda: el.TerminatorOpen())
        decls += d
        acts += a
    for ri, r in enumerate(spec['reads']):
        e = spec['els'][r['e']]
        key = 'r%d' % ri
        needs = ['e%d' % r['e']]
        if 'N' in r:
            needs.append('e%d' % r['N'][0])

        def mk(built, r=r, e=e):
            term = getattr(built['e%d' % r['e']], PORTS[e['t']][r['p']])
            if r['k'] == 'V':
                kw = {}
                if 'N' in r:
                    kw['terminal_N'] = getattr(built['e%d' % r['N'][0]], PORTS[spec['els'][r['N'][0]]['t']][r['N'][1]])
                return el.VoltageReadout(terminal=term, **kw)
            return el.CurrentReadout(terminal=term, direction=r['dir'])
        decls.append((key, tuple(needs), mk))

        def mk2(built, r=r, key=key):
            port = (built[key].V if r['k'] == 'V' else built[key].I).o
            if r['d'] == 'DC':
                return readouts.DCReadout(port=port)
            drv = built['e%d' % r['d']]
            return readouts.ACReadout(portD=getattr(drv, DRIVE[spec['els'][r['d']]['t']]).i, portN=port)
        decls.append((key + 'o', (key,) + (() if r['d'] == 'DC' else ('e%d' % r['d'],)), mk2))
    if extra:
        extra(decls, acts, el)
    A.run(decls, acts)
    b = Built()
    b.sys = sysobj
    b.built = A.built
    b.spec = spec
    b.nreads = len(spec['reads'])

    b.read = reader(spec, b.built)
    return b


def shrink_structure(spec):
    """simpler specs, largest cuts first"""
    for i in range(len(spec['reads'])):
        if len(spec['reads']) > 1:
            yield dict(spec, reads=spec['reads'][:i] + spec['reads'][i + 1:])
    used = set()
    for r in spec['reads']:
        used.add(r['e'])
        if r['d'] != 'DC':
            used.add(r['d'])
        if 'N' in r:
            used.add(r['N'][0])
    for i in range(len(spec['els'])):
        if i in used:
            continue

        def m(j):
            return j - 1 if j > i else j
        reads = []
        for r in spec['reads']:
            r = dict(r, e=m(r['e']))
            if r['d'] != 'DC':
                r['d'] = m(r['d'])
            if 'N' in r:
                r['N'] = [m(r['N'][0]), r['N'][1]]
            reads.append(r)
        yield dict(spec, els=spec['els'][:i] + spec['els'][i + 1:], reads=reads)
    # merge nodes
    nodes = sorted(set(nd for e in spec['els'] for nd in e['n']))
    for a in nodes:
        for b in nodes:
            if a < b:
                els = [dict(e, n=[a if x == b else x for x in e['n']]) for e in spec['els']]
                if any(len(set(e['n'])) < len(e['n']) for e in els):
                    continue
                yield dict(spec, els=els)
    for i, r in enumerate(spec['reads']):
        if 'N' in r:
            r2 = dict(r)
            del r2['N']
            yield dict(spec, reads=spec['reads'][:i] + [r2] + spec['reads'][i + 1:])
    if spec['asm']:
        yield dict(spec, asm=0)
        for a in (1, 2, 3):
            if spec['asm'] > 3:
                yield dict(spec, asm=a)
    if isinstance(spec['F'], list):
        yield dict(spec, F=spec['F'][0])
    if spec['johnson']:
        yield dict(spec, johnson=False)


def shrink_params(spec, F=100.):
    if spec['F'] != F and not isinstance(spec['F'], list):
        yield dict(spec, F=F)
    for i, e in enumerate(spec['els']):
        for k in ('R', 'dc', 'idc'):
            if e.get(k) and not isinstance(e[k], list) and e[k] not in (F, 1.) and e['t'] != 'L':
                yield dict(spec, els=spec['els'][:i] + [dict(e, **{k: F if k == 'R' else 1.})] + spec['els'][i + 1:])


def shrink(spec):
    for s in shrink_structure(spec):
        yield s
    for i, e in enumerate(spec['els']):
        if e['t'] in ('L', 'C', 'K'):
            yield dict(spec, els=spec['els'][:i] + [dict(t='R', n=e['n'], R=100.)] + spec['els'][i + 1:])
    for s in shrink_params(spec):
        yield s
