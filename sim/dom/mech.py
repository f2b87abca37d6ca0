"""Random one-dimensional (and XYZ-bundled) mechanical networks and their equations of motion.

Reference unknowns: displacement of every node, force into every element port.  Nothing of
phasor's wave variables is used.
"""
import numpy as np

from ..core import rnd
from . import elec
from .common import Assembler

AB = ('pm_A', 'pm_B')
PORTS = dict(D=AB, K=AB, SM=AB, CB=AB, TD=('pm_A',), TK=('pm_A',), M=('pm_A',), TO=('pm_A',), TS=('pm_A',),
             DS=('pm_A',), FS=('pm_A',), DB=AB, FB=AB, MO=('pm_A', 'pm_B', 'L'))
AX = ('X', 'Y', 'Z')
VPORTS = dict(XM=('pm_A',), XK=('pm_A',), XR=('pm_A',), XO=('pm_A',), XS=('pm_A',), XI=('L',), XD=('pm_A', 'pm_B', 'L'))
DRIVE = dict(DS='d', DB='d', FS='F', FB='F')


def ports_of(e):
    """scalar ports: list of (portname, node)"""
    if 'rn' in e:
        # reference only: some terminals moved to nodes of their own
        return [(nm, e['rn'].get(k, nd)) for k, (nm, nd) in enumerate(ports_of(dict((q, v) for q, v in e.items() if q != 'rn')))]
    if e['t'] in PORTS:
        return list(zip(PORTS[e['t']], e['n']))
    return [('%s.%s' % (p, ax), nd + ax) for p, nd in zip(VPORTS[e['t']], e['n']) for ax in AX]


def gen(rng, tier='quick', noise=False, dc=True, small=False, array=None):
    n = rng.randint(1, 3 if small else 5)
    nodes = ['n%d' % i for i in range(1, n + 1)]
    els = []

    def add(t, *nd, **kw):
        els.append(dict(t=t, n=list(nd), **kw))

    def spring():
        return dict(k=rnd(rng, .1, 300), phi=rng.choice([0, 0, rnd(rng, 1e-4, .1)]))
    kinds2 = rng.choice([['K'], ['K', 'D'], ['K', 'D', 'K', 'SM'], ['K', 'D', 'CB']])

    def two(a, b):
        t = rng.choice(kinds2)
        if t == 'K':
            add('K', a, b, **spring())
        elif t == 'D':
            add('D', a, b, R=rnd(rng, .01, 10))
        elif t == 'SM':
            add('SM', a, b, m=rnd(rng, .01, 3))
        else:
            add('CB', a, b, T=rnd(rng, 1e-3, 1), loss=rng.choice([0, 0, .1, .5]))

    for i in range(1, n):
        two(nodes[rng.randrange(i)], nodes[i])
    for _ in range(rng.choice([0, 0, 1, 2])):
        if n > 1:
            two(*rng.sample(nodes, 2))
    for nd in nodes:
        if rng.random() < .6:
            add('M', nd, m=rnd(rng, .01, 10))
        r = rng.random()
        if r < .3:
            add('TK', nd, **spring())
        elif r < .45:
            add('TD', nd, R=rnd(rng, .01, 10))
        elif r < .5:
            add('TO', nd)
    add('TK', rng.choice(nodes), **spring())
    if rng.random() < .12 and n > 2:
        add('TS', rng.choice(nodes))
    if rng.random() < .2 and n >= 2:
        a, b = rng.sample(nodes, 2)
        L = 'n%d' % (len(nodes) + 1)
        add('MO', a, b, L, d=rnd(rng, .1, 3) * rng.choice([1, -1]))
        nodes.append(L)
        add(rng.choice(['M', 'M', 'TD']), L, m=rnd(rng, .01, 10), R=rnd(rng, .01, 10))
        if rng.random() < .5:
            add('TK', L, **spring())
    vec = []
    if rng.random() < (.2 if not small else .05):
        # a rigid lever in three dimensions between bundled ports
        vec = ['va', 'vb', 'vl'][:rng.choice([1, 3, 3])]
        v3 = lambda lo, hi: [rnd(rng, lo, hi) for _ in range(3)]
        if len(vec) == 3:
            add('XD', 'va', 'vb', 'vl', d=[rng.choice([0, rnd(rng, .1, 2), -rnd(rng, .1, 2)]) for _ in range(2)] + [rnd(rng, .1, 2)])
            add('XI', 'vl', m=v3(.01, 10))
            add('XM', 'vb', m=v3(.01, 10))
            if rng.random() < .6:
                add('XK', 'vb', k=v3(.1, 300))
            if rng.random() < .3:
                add('XK', 'vl', k=v3(.1, 300))
        add(rng.choice(['XM', 'XK', 'XR']), 'va', m=v3(.01, 10), k=v3(.1, 300), R=v3(.01, 10))
        if rng.random() < .5:
            add('XK', 'va', k=v3(.1, 300))
        if rng.random() < .2:
            add('XR', rng.choice(vec), R=v3(.01, 10))
        vn = [a + ax for a in vec for ax in AX]
        for _ in range(rng.choice([0, 1, 2])):
            add('K', rng.choice(nodes), rng.choice(vn), **spring())
    else:
        vn = []
    allnodes = nodes + vn
    for i in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice(['FS', 'FS', 'DS', 'DB', 'FB'])
        dcv = rng.choice([0, rnd(rng, .01, 10), -rnd(rng, .01, 10)]) if dc else 0
        tgt = rng.choice(allnodes)
        if t in ('DS', 'DB') and rng.random() < .6:
            nn = 'n%d' % (len(nodes) + 1)
            add('K', nn, tgt, **spring())
            nodes.append(nn)
            tgt = nn
        if t in ('DS', 'FS'):
            add(t, tgt, dc=dcv)
        elif t == 'DB':
            add('DB', tgt, rng.choice(nodes), dc=dcv, idc=rng.choice([0, 0, rnd(rng, .01, 3)]) if dc else 0)
        else:
            add('FB', tgt, rng.choice(allnodes), dc=dcv)
    if array is None:
        array = rng.random() < .3
    F = [rnd(rng, .05, 5) for _ in range(rng.choice([2, 3, 5]))] if array else rnd(rng, .05, 5)
    srcs = [i for i, e in enumerate(els) if e['t'] in DRIVE]
    reads = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        i = rng.randrange(len(els))
        p = rng.randrange(len(ports_of(els[i])))
        drive = 'DC' if (dc and rng.random() < .4) else rng.choice(srcs)
        if rng.random() < .6:
            r = dict(k='V', e=i, p=p, d=drive)
            if rng.random() < .25:
                j = rng.randrange(len(els))
                q = rng.randrange(len(ports_of(els[j])))
                if (j, q) != (i, p):
                    r['N'] = [j, q]
            reads.append(r)
        else:
            reads.append(dict(k='I', e=i, p=p, d=drive, dir=rng.choice(['in', 'out'])))
    return dict(dom='mech', els=els, F=F, reads=reads, asm=rng.getrandbits(30), johnson=rng.random() < .5)


def node_ports(spec):
    nodes = {}
    for i, e in enumerate(spec['els']):
        for p, (nm, nd) in enumerate(ports_of(e)):
            nodes.setdefault(nd, []).append((i, p))
    return nodes


def stamp(spec, F):
    nodes = sorted(node_ports(spec))
    nidx = {nd: k for k, nd in enumerate(nodes)}
    pidx = {}
    c = len(nodes)
    for i, e in enumerate(spec['els']):
        for p in range(len(ports_of(e))):
            pidx[i, p] = c
            c += 1
    rows = []
    src = {}
    w = 2j * np.pi * F

    def eq(*terms):
        rows.append(terms)
        return len(rows) - 1
    for nd, plist in node_ports(spec).items():
        eq(*[(pidx[ip], 1) for ip in plist])
    for i, e in enumerate(spec['els']):
        t = e['t']
        v = [nidx[nd] for _, nd in ports_of(e)]
        f = [pidx[i, p] for p in range(len(v))]

        def mob(t, e=e, axis=None):
            g = lambda k: e[k] if axis is None else e[k][axis]
            if t in ('K', 'TK', 'XK'):
                return g('k') * (1 + (1j * e.get('phi', 0) if F else 0))
            if t in ('D', 'TD', 'XR'):
                return w * g('R')
            if t in ('SM', 'M', 'XM', 'XI'):
                return w * w * g('m')
            return 0.
        if t in ('K', 'D', 'SM'):
            y = mob(t)
            eq((f[0], 1), (f[1], 1))
            eq((f[0], -1), (v[0], y), (v[1], -y))
        elif t in ('TK', 'TD', 'M', 'TO'):
            eq((f[0], -1), (v[0], mob(t)))
        elif t in ('XK', 'XR', 'XM', 'XI', 'XO'):
            for a in range(3):
                eq((f[a], -1), (v[a], 0. if t == 'XO' else mob(t, axis=a)))
        elif t == 'TS':
            eq((v[0], 1))
        elif t == 'XS':
            for a in range(3):
                eq((v[a], 1))
        elif t == 'CB':
            # waves of the reference stiffness (1 N/m) travel both ways, delayed and attenuated
            ph = np.exp(-w * e['T']) * (1 - e['loss']) ** .5
            for a, b in ((0, 1), (1, 0)):
                eq((v[b], 1), (f[b], -1), (v[a], -ph), (f[a], -ph))
        elif t == 'DS':
            src[i] = [(eq((v[0], 1)), 1)]
        elif t == 'FS':
            src[i] = [(eq((f[0], -1)), 1)]
        elif t == 'DB':
            src[i] = [(eq((v[0], 1), (v[1], -1)), 1)]
            src[i, 'I'] = [(eq((f[0], -1), (f[1], -1)), 1)]
        elif t == 'FB':
            src[i] = [(eq((f[0], -1)), 1)]
            eq((f[0], 1), (f[1], 1))
        elif t == 'MO':
            # ideal lever: d_A - d_B = d * theta
            eq((v[0], 1), (v[1], -1), (v[2], -e['d']))
            eq((f[0], 1), (f[1], 1))
            eq((f[2], 1), (f[0], e['d']))
        elif t == 'XD':
            # rigid rod from A to B: d_A - d_B = d x theta (no constraint of theta along d), power conserving
            d = np.array(e['d'], dtype=float)
            cross = np.array([[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]])
            C = np.zeros((3, 9))
            C[:, 0:3] = np.eye(3)
            C[:, 3:6] = -np.eye(3)
            C[:, 6:9] = -cross
            for r in range(3):
                eq(*[(v[k], C[r, k]) for k in range(9) if C[r, k]])
            # forces into the element are C^T lambda with lambda = F_A
            for k in range(3, 9):
                eq((f[k], 1), *[(f[r], -C[r, k]) for r in range(3) if C[r, k]])
        else:
            raise AssertionError(t)
    assert len(rows) == c, (len(rows), c)
    A = np.zeros((c, c), dtype=complex)
    for r, terms in enumerate(rows):
        for k, val in terms:
            A[r, k] += val
    return A, nidx, pidx, src


def _scalar(spec):
    """view of the spec with one entry in n per scalar port, for the shared reference code"""
    return dict(spec, els=[dict(e, n=[nd for _, nd in ports_of(e)]) for e in spec['els']])


def ref(spec):
    return elec.ref(_scalar(spec), lambda s, F: stamp(spec, F), 1., 2e-9)


def factory(e, m):
    t = e['t']

    def sk():
        return dict(elasticity_N_m=e['k'], **({'loss_angle_by_freq': e['phi']} if e.get('phi') else {}))
    return {
        'K': lambda: m.SeriesSpring(**sk()), 'TK': lambda: m.TerminatorSpring(**sk()),
        'D': lambda: m.SeriesDamper(resistance_Ns_m=e['R']), 'TD': lambda: m.TerminatorDamper(resistance_Ns_m=e['R']),
        'SM': lambda: m.SeriesMass(mass_kg=e['m']), 'M': lambda: m.Mass(mass_kg=e['m']),
        'CB': lambda: m.Cable(delay_s=e['T'], Loss=e['loss']),
        'TO': lambda: m.TerminatorOpen(), 'TS': lambda: m.TerminatorShorted(),
        'DS': lambda: m.DisplacementSource(d_DC=e['dc']), 'FS': lambda: m.ForceSource(F_DC=e['dc']),
        'DB': lambda: m.DisplacementSourceBalanced(d_DC=e['dc'], F_DC=e['idc']), 'FB': lambda: m.ForceSourceBalanced(F_DC=e['dc']),
        'MO': lambda: m.Moment1D(displacement=e['d']),
        'XM': lambda: m.XYZMass(mass_kg=e['m']), 'XI': lambda: m.XYZMoment(moment_kgmsq=e['m']),
        'XK': lambda: m.XYZTerminatorSpring(elasticity_N_m=e['k']), 'XR': lambda: m.XYZTerminatorDamper(resistance_Ns_m=e['R']),
        'XO': lambda: m.XYZTerminatorOpen(), 'XS': lambda: m.XYZTerminatorShorted(),
        'XD': lambda: m.XYZMomentDriver(displacementXYZ=e['d']),
    }[t]()


def dotted(obj, path):
    for nm in path.split('.'):
        obj = getattr(obj, nm)
    return obj


def reader(spec, built):
    """reads by index, from the given objects"""
    def read(i):
        o = built['r%do' % i]
        return o.DC_readout if spec['reads'][i]['d'] == 'DC' else o.AC_sensitivity
    return read


def build(spec, asm=None, system_kw=None, extra=None):
    import phasor.mechanical as m
    from phasor import system, readouts
    from phasor.base import SystemElementBase
    F = spec['F']
    kw = dict(system_kw or {})
    if not kw.pop('omit_F', False):
        kw['F_AC'] = np.array(F) if isinstance(F, list) else F
    sysobj = system.BGSystem(include_johnson_noise=spec['johnson'], **kw)
    A = Assembler(sysobj, spec['asm'] if asm is None else asm, SystemElementBase)
    decls, acts = [], []
    snodes, vnodes = {}, {}
    els = spec['els']
    for i, e in enumerate(els):
        decls.append(('e%d' % i, (), lambda built, e=e: factory(e, m)))
        if e['t'] in PORTS:
            for p, nd in zip(PORTS[e['t']], e['n']):
                snodes.setdefault(nd, []).append(('e%d' % i, p))
        else:
            for p, nd in zip(VPORTS[e['t']], e['n']):
                vnodes.setdefault(nd, []).append(('e%d' % i, p))
    for nd, ports in sorted(vnodes.items()):
        d, a = A.join(nd, ports, None, None, 'pm_')
        decls += d
        acts += a
        for ax in AX:
            mine = snodes.pop(nd + ax, [])
            # scalar elements hang onto one axis of any bundled port of that node
            for key, p in mine:
                host, hp = A.pick(ports)
                if A.coin(.5):
                    acts.append(((key, host), lambda b, key=key, p=p, host=host, hp=hp, ax=ax: dotted(b[key], p).bond(dotted(b[host], hp + '.' + ax))))
                else:
                    acts.append(((key, host), lambda b, key=key, p=p, host=host, hp=hp, ax=ax: dotted(b[host], hp + '.' + ax).bond(dotted(b[key], p))))
    for nd, ports in sorted(snodes.items()):
        d, a = A.join(nd, ports, lambda **k: m.Connection(**k), lambda: m.TerminatorOpen(), 'pm_')
        decls += d
        acts += a
    for ri, r in enumerate(spec['reads']):
        key = 'r%d' % ri
        needs = ['e%d' % r['e']]
        if 'N' in r:
            needs.append('e%d' % r['N'][0])

        def mk(built, r=r):
            term = dotted(built['e%d' % r['e']], ports_of(els[r['e']])[r['p']][0])
            if r['k'] == 'V':
                k2 = {}
                if 'N' in r:
                    k2['terminal_N'] = dotted(built['e%d' % r['N'][0]], ports_of(els[r['N'][0]])[r['N'][1]][0])
                return m.DisplacementReadout(terminal=term, **k2)
            return m.ForceReadout(terminal=term, direction=r['dir'])
        decls.append((key, tuple(needs), mk))

        def mk2(built, r=r, key=key):
            port = (built[key].d if r['k'] == 'V' else built[key].F).o
            if r['d'] == 'DC':
                return readouts.DCReadout(port=port)
            return readouts.ACReadout(portD=getattr(built['e%d' % r['d']], DRIVE[els[r['d']]['t']]).i, portN=port)
        decls.append((key + 'o', (key,) + (() if r['d'] == 'DC' else ('e%d' % r['d'],)), mk2))
    if extra:
        extra(decls, acts, m)
    A.run(decls, acts)
    b = elec.Built()
    b.sys = sysobj
    b.built = A.built
    b.spec = spec
    b.nreads = len(spec['reads'])

    b.read = reader(spec, b.built)
    return b


def shrink(spec):
    for s in elec.shrink_structure(spec):
        yield s
    for i, e in enumerate(spec['els']):
        if e['t'] in ('D', 'SM', 'CB'):
            yield dict(spec, els=spec['els'][:i] + [dict(t='K', n=e['n'], k=1., phi=0)] + spec['els'][i + 1:])
        if e.get('phi'):
            yield dict(spec, els=spec['els'][:i] + [dict(e, phi=0)] + spec['els'][i + 1:])
    for s in elec.shrink_params(spec, 1.):
        yield s
