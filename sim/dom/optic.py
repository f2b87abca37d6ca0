"""Random optical networks (random pairings of ports, so loops arise freely) and their plane-wave solution.

Reference: one amplitude per outgoing port and polarisation; every element is its amplitude scattering matrix at the
frequency of the field; first-order audio sidebands around every static carrier.  Nothing of phasor's keys, raising and
lowering fields or injections is used.
"""
import cmath
import math

import numpy as np

from ..core import Skip, rnd
from .common import Assembler
from .elec import Built

C = 299792458.0
K1064 = 2 * np.pi / 1064e-9

TWO = ('po_Fr', 'po_Bk')
FOUR = ('po_FrA', 'po_FrB', 'po_BkA', 'po_BkB')


def ports_of(e):
    t = e['t']
    if t in ('LAS', 'PD'):
        return ('po_Fr',)
    if t in ('M', 'PM') and e['aoi'] != 0:
        return FOUR
    if t == 'CIRC':
        return tuple('P%d' % i for i in range(e['n']))
    if t in ('SEL', 'PSEL'):
        return ('po_Fr', 'Bk_S', 'Bk_P')
    return TWO


CHAIN = {'po_Fr': 'po_Bk', 'po_Bk': 'po_Fr', 'po_FrA': 'po_BkA', 'po_BkA': 'po_FrA', 'po_FrB': 'po_BkB', 'po_BkB': 'po_FrB'}


def mirror_params(rng, phase=True):
    m = dict(T=rng.choice([0, .5, rnd(rng, 1e-3, .9), rnd(rng, .01, .9)]), flip=rng.random() < .15)
    if rng.random() < .35:
        m['L'] = rnd(rng, 1e-4, .09)
    if rng.random() < .15 and m['T']:
        m['Lt'] = round(m['T'] * rng.random() * .5, 6)
    if phase and rng.random() < .12:
        m['phase'] = round(rng.uniform(-180, 180), 2)
    return m


def gen(rng, tier='quick', small=False, array=None, noise=False, acdrives=True):
    els = []

    def add(t, **kw):
        els.append(dict(t=t, **kw))
        return len(els) - 1
    nsh = rng.choice([0, 0, 0, 1, 2])
    shifts = [rnd(rng, 1e3, 3e7) for _ in range(nsh)]
    nlas = rng.choice([1, 1, 1, 2, 3]) if not small else 1
    if nlas > 1 and nsh:
        # several static carriers multiply the field keys: keep these networks small
        small = True
        nlas = 2
    for _ in range(nlas):
        off = [0] * nsh
        if nsh and rng.random() < .7:
            off[rng.randrange(nsh)] = rng.choice([1, -1, 2]) if nsh == 1 else rng.choice([1, -1])
        add('LAS', P=rnd(rng, 1e-3, 100), pol=rng.choice('SSP'), phase=rng.choice([0, round(rng.uniform(-180, 180), 2)]), off=off)
    pols = rng.random() < .5
    for _ in range(rng.choice([1, 2, 3]) if small else rng.choice([1, 2, 3, 4, 6])):
        if rng.random() < .7:
            aoi = rng.choice([0, 0, 0, 45, 45, round(rng.uniform(1, 80), 1)])
            m = mirror_params(rng)
            if aoi and rng.random() < .15:
                m['bs'] = rnd(rng, 1e-4, .05)
                if rng.random() < .5:
                    m['bsphase'] = round(rng.uniform(-180, 180), 2)
            add('M', aoi=aoi, **m)
        elif pols:
            add('PM', aoi=rng.choice([0, 45]), S=mirror_params(rng, False), P=mirror_params(rng, False))
    for _ in range(rng.choice([0, 1, 2, 3])):
        add('SP', L=rng.choice([0, rnd(rng, 1e-3, 4000)]), det=rng.choice([0, round(rng.uniform(-6e-7, 6e-7), 10)]))
    if pols:
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.choice(['HWP', 'QWP', 'ROT', 'FAR', 'SEL', 'PSEL'])
            if t in ('SEL', 'PSEL'):
                add(t)
            else:
                add(t, deg=rng.choice([0, 45, 45, 90, -90, 180, 22.5, round(rng.uniform(-200, 400), 1)]))
    if rng.random() < .25:
        add('CIRC', n=rng.choice([3, 3, 4]))
    if acdrives:
        for _ in range(rng.choice([0, 1, 1, 2])):
            add(rng.choice(['AM', 'PHM', 'AMPM']))
    for _ in range(rng.choice([0, 0, 1, 2])):
        add('MPD')
    npd = rng.choice([1, 2, 3])
    for _ in range(npd):
        add('PD')
    for e in els:
        if e['t'] in ('M', 'PM') and not e.get('bs') and acdrives and rng.random() < .2:
            e['ds'] = True
    # random pairing
    free = [(i, p) for i, e in enumerate(els) for p in range(len(ports_of(e)))]
    rng.shuffle(free)
    las = [f for f in free if els[f[0]]['t'] == 'LAS']
    pds = [f for f in free if els[f[0]]['t'] == 'PD']
    oth = [f for f in free if els[f[0]]['t'] not in ('LAS', 'PD')]
    bonds = []
    for q in las + pds:
        if oth and rng.random() < .97:
            bonds.append([list(q), list(oth.pop())])
    leave = rng.random() * .3
    while len(oth) >= 2:
        a = oth.pop()
        if rng.random() < leave:
            continue
        k = next((i for i in range(len(oth) - 1, -1, -1) if oth[i][0] != a[0] or rng.random() < .03), None)
        if k is None:
            continue
        bonds.append([list(a), list(oth.pop(k))])
    if array is None:
        array = rng.random() < .3
    F = [rnd(rng, 1, 1e5) for _ in range(rng.choice([2, 3]))] if array else rnd(rng, 1, 1e5)
    spec = dict(dom='optic', els=els, bonds=bonds, shifts=shifts, F=F, asm=rng.getrandbits(30), reads=[])
    drives = drives_of(spec)
    det = [i for i, e in enumerate(els) if e['t'] in ('PD', 'MPD')]
    for _ in range(rng.choice([1, 2, 3, 4])):
        d = rng.choice(det)
        if drives and acdrives and rng.random() < .6:
            spec['reads'].append(dict(k='AC', pd=d, d=list(rng.choice(drives))))
        else:
            spec['reads'].append(dict(k='DC', pd=d))
    return spec


def drives_of(spec):
    out = []
    for i, e in enumerate(spec['els']):
        if e.get('ds'):
            out.append((i, 'DS'))
        if e['t'] == 'M' and not e.get('bs'):
            out.append((i, 'Z.d.o'))
        elif e['t'] == 'PM':
            out.append((i, 'mirror_S.Z.d.o'))
            out.append((i, 'mirror_P.Z.d.o'))
        elif e['t'] in ('AM', 'PHM'):
            out.append((i, 'Drv.i'))
        elif e['t'] == 'AMPM':
            out.append((i, 'DrvAM.i'))
            out.append((i, 'DrvPM.i'))
    return out


# ---- reference ---------------------------------------------------------------------------------

def rot(deg):
    """2x2, columns = input (S, P)"""
    th = deg * np.pi / 180
    return np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]], dtype=complex)


def mirror(m):
    """(t, r_front, r_back, r_backscatter) amplitudes"""
    T, L, Lt, bs = m.get('T', 0), m.get('L', 0), m.get('Lt', 0), m.get('bs', 0)
    t = math.sqrt(max(0, T - Lt))
    r = math.sqrt(max(0, 1 - T - L - bs))
    b = math.sqrt(bs)
    if m.get('flip'):
        r, b = -r, -b
    ph = cmath.exp(1j * np.pi / 180 * m.get('phase', 0))
    bph = cmath.exp(1j * np.pi / 180 * m.get('bsphase', 0))
    return t, r * ph, -r * ph, b * bph


def mirror_entries(m, four):
    """list of (port_in, port_out, amplitude)"""
    t, rf, rb, b = mirror(m)
    if not four:
        return [(0, 1, t), (1, 0, t), (0, 0, rf), (1, 1, rb)]
    FA, FB, BA, BB = range(4)
    return [(FA, BA, t), (BA, FA, t), (FB, BB, t), (BB, FB, t),
            (FA, FB, rf), (FB, FA, rf), (BA, BB, rb), (BB, BA, rb),
            (FA, FA, b), (FB, FB, -b), (BA, BA, -b), (BB, BB, b)]


def coupling(e, f):
    """list of (port_in, port_out, 2x2 over polarisation [out, in]) at offset frequency f"""
    t = e['t']
    I = np.eye(2, dtype=complex)
    if t in ('LAS', 'PD'):
        return []
    if t == 'M':
        return [(a, b, v * I) for a, b, v in mirror_entries(e, e['aoi'] != 0)]
    if t == 'PM':
        ms, mp = e['S'], e['P']
        four = e['aoi'] != 0
        S, P = mirror_entries(ms, four), mirror_entries(mp, four)
        return [(a, b, np.diag([v, w])) for (a, b, v), (_, _, w) in zip(S, P)]
    if t == 'SP':
        ph = np.exp(-2j * np.pi * f * e['L'] / C - 1j * K1064 * e['det'])
        return [(0, 1, ph * I), (1, 0, ph * I)]
    if t in ('MPD', 'AM', 'PHM', 'AMPM'):
        return [(0, 1, I), (1, 0, I)]
    if t in ('HWP', 'QWP'):
        D = np.diag([1, -1 if t == 'HWP' else 1j])
        Mx = rot(-e['deg']) @ D @ rot(e['deg'])
        return [(0, 1, Mx), (1, 0, Mx)]
    if t == 'ROT':
        return [(0, 1, rot(e['deg'])), (1, 0, rot(-e['deg']))]
    if t == 'FAR':
        return [(0, 1, rot(e['deg'])), (1, 0, rot(e['deg']))]
    if t == 'CIRC':
        return [(i, (i + 1) % e['n'], I) for i in range(e['n'])]
    if t in ('SEL', 'PSEL'):
        S, P = np.diag([1, 0]).astype(complex), np.diag([0, 1]).astype(complex)
        return [(0, 1, S), (0, 2, P), (1, 0, S), (2, 0, P)]
    raise AssertionError(t)


def modulation(e, dname):
    """list of (port_in, port_out, 2x2 amplitude per unit drive): first-order sideband generation"""
    t = e['t']
    I = np.eye(2, dtype=complex)
    if t in ('M', 'PM'):
        four = e['aoi'] != 0
        k = -2 * math.cos(e['aoi'] * np.pi / 180) * K1064
        out = []
        for a, b, G in coupling(e, 0.):
            front_in = (a in (0, 1)) if four else (a == 0)
            front_out = (b in (0, 1)) if four else (b == 0)
            if front_in != front_out:
                continue
            if four and a == b:
                continue
            H = G if not dname.startswith('mirror_') else G @ np.diag([1, 0] if dname[7] == 'S' else [0, 1])
            out.append((a, b, H * (1j * k * (1 if front_in else -1))))
        return out
    if t == 'AM' or dname == 'DrvAM.i':
        return [(0, 1, I / 2), (1, 0, I / 2)]
    return [(0, 1, 1j * I / 2), (1, 0, 1j * I / 2)]


class Ref(object):
    def __init__(self, spec, F):
        self.spec = spec
        els = spec['els']
        self.idx = {}
        for i, e in enumerate(els):
            for p in range(len(ports_of(e))):
                self.idx[i, p] = 2 * len(self.idx)
        self.N = 2 * len(self.idx)
        self.part = {}
        for a, b in spec['bonds']:
            self.part[tuple(a)] = tuple(b)
            self.part[tuple(b)] = tuple(a)
        self.cond = 1.
        self.carriers = {}
        for i, e in enumerate(els):
            if e['t'] == 'LAS':
                v = self.carriers.setdefault(tuple(e['off']), np.zeros(self.N, dtype=complex))
                v[self.idx[i, 0] + (0 if e['pol'] == 'S' else 1)] += math.sqrt(e['P']) * cmath.exp(1j * np.pi / 180 * e['phase'])
        self.F = F
        self.static = {}
        for off, src in self.carriers.items():
            f = sum(n * s for n, s in zip(off, spec['shifts']))
            self.static[off] = (f, self.solve(f) @ src)
        self.inv = {}

    def S(self, f):
        M = np.zeros((self.N, self.N), dtype=complex)
        for i, e in enumerate(self.spec['els']):
            for a, b, G in coupling(e, f):
                src = self.part.get((i, a))
                if src is None:
                    continue
                r, c = self.idx[i, b], self.idx[src]
                M[r:r + 2, c:c + 2] += G
        return M

    def solve(self, f):
        A = np.eye(self.N) - self.S(f)
        c = np.linalg.cond(A)
        if not np.isfinite(c) or c > 3e5:
            raise Skip('resonance too sharp')
        self.cond = max(self.cond, c)
        return np.linalg.inv(A)

    def inp(self, x, i, p):
        src = self.part.get((i, p))
        return np.zeros(2, dtype=complex) if src is None else x[self.idx[src]:self.idx[src] + 2]

    def check_selectors(self, x):
        for i, e in enumerate(self.spec['els']):
            if e['t'] in ('SEL', 'PSEL'):
                if abs(self.inp(x, i, 1)[1]) > 0 or abs(self.inp(x, i, 2)[0]) > 0:
                    raise Skip('a selector output is fed the polarisation it does not carry')

    def dc(self, i):
        tot, mag = 0., 0.
        for f, x in self.static.values():
            self.check_selectors(x)
            v = self.inp(x, i, 0)
            tot += float(np.sum(np.abs(v) ** 2))
            mag += float(np.max(np.abs(x)) ** 2)
        return tot, mag * self.cond * 1e-11

    def sideband(self, f, x, i, dname, conj):
        """first order sideband field of the carrier x at absolute offset f"""
        e = self.spec['els'][i]
        s = np.zeros(self.N, dtype=complex)
        scale = 0.
        for a, b, G in modulation(e, dname):
            s[self.idx[i, b]:self.idx[i, b] + 2] += G @ self.inp(x, i, a)
            # even a field that cancels exactly at this element is only known to rounding
            scale = max(scale, np.max(np.abs(G)) * np.max(np.abs(x)))
        y = self.solve(f) @ s
        self.check_selectors(y)
        return y, scale

    def ac(self, i, di, dname):
        tot, mag = 0., 0.
        for f, x in self.static.values():
            self.check_selectors(x)
            up, m1 = self.sideband(f + self.F, x, di, dname, False)
            dn, m2 = self.sideband(f - self.F, x, di, dname, True)
            A = self.inp(x, i, 0)
            tot = tot + np.sum(np.conj(A) * self.inp(up, i, 0) + A * np.conj(self.inp(dn, i, 0)))
            mag += max(np.max(np.abs(up)), np.max(np.abs(dn)), m1, m2) * np.max(np.abs(x))
        return tot, mag * self.cond * 1e-11


def ref(spec):
    """list of (value or array, tolerance) per read"""
    arr = isinstance(spec['F'], list)
    Fs = spec['F'] if arr else [spec['F']]
    refs = [Ref(spec, F) for F in Fs]
    out = []
    for r in spec['reads']:
        if r['k'] == 'DC':
            v, t = refs[0].dc(r['pd'])
            out.append((v, t))
        else:
            vs = [R.ac(r['pd'], r['d'][0], r['d'][1]) for R in refs]
            if arr:
                out.append((np.array([v for v, _ in vs]), max(t for _, t in vs)))
            else:
                out.append(vs[0])
    return out


# ---- real system -------------------------------------------------------------------------------

def mirror_kw(m):
    kw = dict(T_hr=m.get('T', 0))
    if m.get('L'):
        kw['L_hr'] = m['L']
    if m.get('Lt'):
        kw['L_t'] = m['Lt']
    if m.get('flip'):
        kw['flip_sign'] = True
    if m.get('phase'):
        kw['phase_deg'] = m['phase']
    if m.get('bs'):
        kw['R_backscatter'] = m['bs']
    if m.get('bsphase'):
        kw['backscatter_phase_deg'] = m['bsphase']
    return kw


def factory(e, o, sysobj, shifts):
    t = e['t']
    if t == 'LAS':
        kw = {}
        cf = {shifts[k]: n for k, n in enumerate(e['off']) if n}
        if cf:
            kw['classical_fdict'] = cf
        if e['phase']:
            kw['phase_deg'] = e['phase']
        return o.Laser(F=sysobj.F_carrier_1064, power_W=e['P'], polarization=e['pol'], **kw)
    if t == 'PD':
        return o.PD()
    if t == 'MPD':
        return o.MagicPD()
    if t == 'M':
        kw = mirror_kw(e)
        if e['aoi']:
            kw['AOI_deg'] = e['aoi']
        return o.Mirror(**kw)
    if t == 'PM':
        return o.PolarizingMirror(mirror_S=o.Mirror(**mirror_kw(e['S'])), mirror_P=o.Mirror(**mirror_kw(e['P'])), AOI_deg=e['aoi'])
    if t == 'SP':
        return o.Space(L_m=e['L'], L_detune_m=e['det'])
    if t == 'HWP':
        return o.HalfWavePlate(rotate_deg=e['deg'])
    if t == 'QWP':
        return o.QuarterWavePlate(rotate_deg=e['deg'])
    if t == 'ROT':
        return o.PolarizationRotator(rotate_deg=e['deg'])
    if t == 'FAR':
        return o.FaradayRotator(rotate_deg=e['deg'])
    if t == 'CIRC':
        return o.OpticalCirculator(N_ports=e['n'])
    if t == 'SEL':
        from phasor.optics.selective_mirrors import PolarizingSelector
        return PolarizingSelector()
    if t == 'PSEL':
        from phasor.optics.selectors import PolSelector
        return PolSelector()
    return {'AM': o.AM, 'PHM': o.PM, 'AMPM': o.AMPM}[t]()


def dotted(obj, path):
    for nm in path.split('.'):
        obj = getattr(obj, nm)
    return obj


def reader(spec, built):
    """reads by index, from the given objects"""
    def read(i):
        ob = built['r%do' % i]
        return ob.DC_readout if spec['reads'][i]['k'] == 'DC' else ob.AC_sensitivity
    return read


def build(spec, asm=None, system_kw=None, extra=None):
    import phasor.optics as o
    from phasor import system, readouts, mechanical
    from phasor.base import SystemElementBase
    kw = dict(system_kw or {})
    F = spec['F']
    if not kw.pop('omit_F', False):
        kw['F_AC'] = np.array(F) if isinstance(F, list) else F
    sysobj = system.BGSystem(**kw)
    # a linear network is exact after two iterations; the default cap of 100 is only reached on rounding noise
    # (every iteration of a simulated run eliminates in a fresh order, so noise-level fields never repeat exactly)
    sysobj.max_N = 10
    A = Assembler(sysobj, spec['asm'] if asm is None else asm, SystemElementBase)
    els = spec['els']
    decls, acts = [], []
    shifts = []
    for k, f in enumerate(spec['shifts']):
        shifts.append(sysobj.insert(system.Frequency(F_Hz=f, F_center_Hz=f, order=max([1] + [abs(e['off'][k]) for e in els if e['t'] == 'LAS'])), 'Fshift%d' % k))
    for i, e in enumerate(els):
        decls.append(('e%d' % i, (), lambda built, e=e: factory(e, o, sysobj, shifts)))
        if e.get('ds'):
            decls.append(('e%dds' % i, (), lambda built: mechanical.DisplacementSource()))

            def join(built, i=i):
                a, b = built['e%d' % i].Z, built['e%dds' % i].pm_A
                if A.coin(.5):
                    a, b = b, a
                a.bond(b)
            acts.append((('e%d' % i, 'e%dds' % i), join))

    def port(built, ip):
        return getattr(built['e%d' % ip[0]], ports_of(els[ip[0]])[ip[1]])

    # spell some runs of bonds as one bond_sequence
    todo = {}
    for a, b in spec['bonds']:
        todo[tuple(a)] = tuple(b)
        todo[tuple(b)] = tuple(a)

    def chain(ip):
        e = els[ip[0]]
        nm = ports_of(e)[ip[1]]
        if e['t'] == 'CIRC':
            return (ip[0], (ip[1] + 1) % e['n'])
        if e['t'] in ('LAS', 'PD', 'SEL', 'PSEL'):
            return None
        return (ip[0], ports_of(e).index(CHAIN[nm]))
    for a, b in A.shuffle(spec['bonds']):
        a, b = tuple(a), tuple(b)
        if a not in todo:
            continue
        if A.coin(.5):
            a, b = b, a
        del todo[a], todo[b]
        seq = [a, b]
        while A.coin(.6):
            nxt = chain(seq[-1])
            if nxt is None or nxt not in todo:
                break
            to = todo.pop(nxt)
            todo.pop(to, None)
            seq.append(to)
        needs = tuple(sorted(set('e%d' % s[0] for s in seq)))
        if len(seq) > 2:
            acts.append((needs, lambda built, seq=seq: sysobj.bond_sequence(*[port(built, s) for s in seq])))
        else:
            style = A.pick([0, 1, 2])
            if style == 0:
                acts.append((needs, lambda built, a=a, b=b: port(built, a).bond(port(built, b))))
            elif style == 1:
                acts.append((needs, lambda built, a=a, b=b: sysobj.bond(port(built, a), port(built, b))))
            else:
                acts.append((needs, lambda built, a=a, b=b: sysobj.bond_sequence(port(built, a), port(built, b))))
    for ri, r in enumerate(spec['reads']):
        needs = ['e%d' % r['pd']]
        if r['k'] == 'AC':
            needs.append('e%d' % r['d'][0] + ('ds' if r['d'][1] == 'DS' else ''))

        def mk(built, r=r):
            w = built['e%d' % r['pd']].Wpd.o
            if r['k'] == 'DC':
                return readouts.DCReadout(port=w)
            if r['d'][1] == 'DS':
                return readouts.ACReadout(portD=built['e%dds' % r['d'][0]].d.i, portN=w)
            return readouts.ACReadout(portD=dotted(built['e%d' % r['d'][0]], r['d'][1]), portN=w)
        decls.append(('r%do' % ri, tuple(needs), mk))
    if extra:
        extra(decls, acts, o)
    A.run(decls, acts)
    b = Built()
    b.sys = sysobj
    b.built = A.built
    b.spec = spec
    b.nreads = len(spec['reads'])

    b.read = reader(spec, b.built)
    return b


# ---- shrinking ---------------------------------------------------------------------------------

def drop_el(spec, d):
    m = lambda i: i - 1 if i > d else i
    els = spec['els'][:d] + spec['els'][d + 1:]
    bonds = [[[m(a[0]), a[1]], [m(b[0]), b[1]]] for a, b in spec['bonds'] if a[0] != d and b[0] != d]
    reads = []
    for r in spec['reads']:
        if r['pd'] == d or (r['k'] == 'AC' and r['d'][0] == d):
            continue
        r = dict(r, pd=m(r['pd']))
        if r['k'] == 'AC':
            r['d'] = [m(r['d'][0]), r['d'][1]]
        reads.append(r)
    return dict(spec, els=els, bonds=bonds, reads=reads)


def shrink(spec):
    for i in range(len(spec['reads'])):
        if len(spec['reads']) > 1:
            yield dict(spec, reads=spec['reads'][:i] + spec['reads'][i + 1:])
    for d in range(len(spec['els'])):
        s = drop_el(spec, d)
        if s['reads']:
            yield s
    # bypass two-port elements
    for d, e in enumerate(spec['els']):
        if ports_of(e) == TWO:
            ends = []
            for a, b in spec['bonds']:
                if a[0] == d and b[0] != d:
                    ends.append(b)
                elif b[0] == d and a[0] != d:
                    ends.append(a)
            if len(ends) == 2:
                s = dict(spec, bonds=[x for x in spec['bonds'] if x[0][0] != d and x[1][0] != d] + [ends])
                s = drop_el(s, d)
                if s['reads']:
                    yield s
    for i in range(len(spec['bonds'])):
        yield dict(spec, bonds=spec['bonds'][:i] + spec['bonds'][i + 1:])
    if isinstance(spec['F'], list):
        yield dict(spec, F=spec['F'][0])
        for i in range(len(spec['F'])):
            if len(spec['F']) > 2:
                yield dict(spec, F=spec['F'][:i] + spec['F'][i + 1:])
    if spec['shifts'] and not any(any(e.get('off', ())) for e in spec['els']):
        yield dict(spec, shifts=[], els=[dict(e, off=[]) if 'off' in e else e for e in spec['els']])

    def put(i, **kw):
        return dict(spec, els=spec['els'][:i] + [dict(spec['els'][i], **kw)] + spec['els'][i + 1:])
    for i, e in enumerate(spec['els']):
        for k, z in (('L', 0), ('Lt', 0), ('phase', 0), ('det', 0), ('bs', 0), ('bsphase', 0), ('flip', False), ('deg', 0), ('P', 1.), ('T', .5)):
            if k in e and e[k] != z and e[k]:
                if k == 'bs' and e.get('bsphase'):
                    continue
                yield put(i, **{k: z})
        if e.get('ds') and not any(r['k'] == 'AC' and r['d'] == [i, 'DS'] for r in spec['reads']):
            yield put(i, ds=False)
        if 'off' in e and any(e['off']):
            yield put(i, off=[0] * len(e['off']))
        for q in 'SP':
            if e['t'] == 'PM' and isinstance(e.get(q), dict) and set(e[q]) - {'T'}:
                yield put(i, **{q: dict(T=e[q].get('T', 0))})
    for s in (dict(spec, asm=0), dict(spec, F=100.)):
        if s != spec and (s['asm'] != spec['asm'] or not isinstance(spec['F'], list)):
            yield s
