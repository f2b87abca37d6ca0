"""A workload of any domain as a set of named observations with known values.

The history, fault and interleaving checks (C06, C07, C08, C12) drive systems through these observations; the wanted
values come from the domains' reference models, so a value is judged against physics and not against another run.
"""
import numpy as np

from ..core import Skip, Violation, expect
from . import conv, elec, mech, noise, optic, sig

DOM = noise.DOM
# share of the workloads that mix frequencies
CONV = .12


def gen(rng, tier, noisy=.5, small=True, doms=None):
    """spec: {'dom', 'noisy', 's': domain spec}"""
    if 'conv' in doms if doms else rng.random() < CONV:
        nz = noisy and rng.random() < .2
        return dict(dom='conv', noisy=bool(nz), s=noise.gen(rng, tier, dom='conv') if nz else conv.gen(rng, tier, small=small))
    if rng.random() < noisy:
        while True:
            s = noise.gen(rng, tier)
            if doms is None or s['dom'] in doms:
                break
        return dict(dom=s['dom'], noisy=True, s=s)
    dom = rng.choice(doms or ['elec', 'elec', 'mech', 'sig', 'sig', 'optic', 'optic'])
    return dict(dom=dom, noisy=False, s=DOM[dom].gen(rng, tier, small=small))


def lines(spec):
    """how many lines the classical frequencies of the spec make (cost of a solve grows with it)"""
    n = 1
    for q in spec['s'].get('freqs', ()):
        n *= 2 * (q['order'] or 2) + 1
    return n


class Want(object):
    """wanted values, computed once from the references"""
    def __init__(self, spec):
        s = self.s = spec['s']
        self.spec = spec
        self.D = DOM[spec['dom']]
        self.reads = self.D.ref(s)
        self.noisy = spec['noisy']
        if self.noisy:
            self.labels, self.S, self.H, self.T = noise.ref(s)
            self.arr = isinstance(s['F'], list)
            self.adj = 1. if s['ss'] == 1 else .5
            self.bylab = {}
            for k, l in enumerate(self.labels or ()):
                self.bylab.setdefault(l, []).append(k)

    def csd(self, i, j, sel=None):
        S, H, T = self.S, self.H, self.T
        k = slice(None) if sel is None else sel
        v = self.adj * np.sum(S[k] * H[k, i] * np.conj(H[k, j]), axis=0)
        m = np.sqrt(np.abs(H[k, i]) * np.abs(H[k, j]))
        t = self.adj * np.sum(S[k] * (T[k, i] * (np.abs(H[k, j]) + T[k, j]) + T[k, j] * np.abs(H[k, i]) + 1e-9 * m * m), axis=0)
        t = float(np.max(t)) * 2 if np.size(t) else 0.
        if i == j:
            v = np.real(v)
        return (v if self.arr else v[0]), t + 1e-60

    def names(self):
        """observations of the spec, in a fixed order"""
        out = [('r', i) for i in range(len(self.s['reads'])) if not self._noise_only(i)]
        if self.noisy:
            for i, r in enumerate(self.s['reads']):
                out += [('psd', i), ('asd', i), ('by', i)] if noise.has_ac(r) else [('n', i), ('nby', i)]
            for g, idx in sorted(noise.groups(self.s).items()):
                for i in idx:
                    for j in idx:
                        out += [('csd', g, i, j), ('gby', g, i, j)]
        return out

    def _noise_only(self, i):
        r = self.s['reads'][i]
        return self.noisy and self.spec['dom'] == 'sig' and 'D' not in r and r['k'] == 'S'

    def check(self, name, got, b=None, what=None):
        """got: the value handed out for the observation"""
        what = what or 'observation %r' % (name,)
        k = name[0]
        if k == 'r':
            v, t = self.reads[name[1]]
            # the references' own rounding allowance
            expect('wrong-value', what, got, v, 1e-6, t + (1e-12 if self.spec['dom'] in ('elec', 'mech') else 1e-15))
        elif k in ('psd', 'n'):
            v, t = self.csd(name[1], name[1])
            expect('wrong-psd', what, got, v, 1e-6, t)
        elif k == 'asd':
            v, t = self.csd(name[1], name[1])
            if np.any(np.asarray(v) <= 10 * t):
                return
            expect('wrong-asd', what, np.asarray(got) ** 2, v, 1e-6, t)
        elif k == 'csd':
            v, t = self.csd(name[2], name[3])
            expect('wrong-csd', what, got, v, 1e-6, t)
        else:
            i, j = (name[1], name[1]) if k in ('by', 'nby') else (name[2], name[3])
            v, t = self.csd(i, j)
            tot = 0
            for x in got.values():
                tot = tot + x
            expect('wrong-breakdown', what + ' summed over sources', tot, v, 1e-6, t)
            if self.labels is not None and b is not None:
                lab = dict((id(o), l) for l, o in noise.source_objects(self.s, b, set(self.labels)).items())
                for o, x in got.items():
                    l = lab.get(id(o))
                    if l is None:
                        if np.any(np.abs(x) > 0):
                            raise Violation('unknown-source', '%s lists a source that was never declared' % what)
                        continue
                    v, t = self.csd(i, j, self.bylab[l])
                    expect('wrong-source', '%s from %r' % (what, l), x, v, 1e-6, t)


def build(spec, asm=None, system_kw=None, extra=None):
    s = spec['s']
    if spec['noisy']:
        return noise.build(s, asm=asm, system_kw=system_kw, extra2=extra)
    return DOM[spec['dom']].build(s, asm=asm, system_kw=system_kw, extra=extra)


def rkey(spec, i):
    return ('r%d' if spec['dom'] == 'sig' else 'r%do') % i


def observe(spec, b, name):
    k = name[0]
    if k == 'r':
        return b.read(name[1])
    if k in ('psd', 'asd', 'by'):
        o = b.built[rkey(spec, name[1])]
        return {'psd': lambda: o.AC_PSD, 'asd': lambda: o.AC_ASD, 'by': lambda: o.AC_PSD_by_source}[k]()
    if k == 'n':
        return b.built['r%dn' % name[1]].CSD['R', 'R']
    if k == 'nby':
        return dict((o, v['R', 'R']) for o, v in b.built['r%dn' % name[1]].CSD_by_source.items())
    pk = ('p%d' % name[2], 'p%d' % name[3])
    g = b.built['g%d' % name[1]]
    if k == 'csd':
        return g.CSD[pk]
    return dict((o, v[pk]) for o, v in g.CSD_by_source.items())


def solo(spec, i):
    """the same network holding only read i"""
    return dict(spec, s=dict(spec['s'], reads=[spec['s']['reads'][i]]))


def solo_name(name, i):
    """observation name within the solo system, None when it needs more than read i"""
    if name[0] in ('csd', 'gby'):
        return (name[0], name[1], 0, 0) if name[2] == name[3] == i else None
    return (name[0], 0) if name[1] == i else None


def shrink(spec):
    D = noise if spec['noisy'] else DOM[spec['dom']]
    for s in D.shrink(spec['s']):
        if s['reads']:
            yield dict(spec, s=s)
    if spec['noisy']:
        s = spec['s']
        if all('D' in r or r['k'] != 'S' for r in s['reads']):
            yield dict(spec, noisy=False)


class Named(object):
    """the objects of a Built, found again by name in another system of the same family (lazily, as a user would)"""
    def __init__(self, names, system):
        self.names = names
        self.system = system
        self.found = {}

    def __contains__(self, key):
        return key in self.names

    def get(self, key, default=None):
        return self[key] if key in self.names else default

    def __getitem__(self, key):
        if key not in self.found:
            obj = self.system[self.names[key]]
            if obj.root is not self.system:
                raise Violation('foreign-element', '%s of the system belongs to another system' % self.names[key])
            self.found[key] = obj
        return self.found[key]


def reader(spec, names, system):
    b = elec.Built()
    b.sys = system
    b.built = Named(names, system)
    b.spec = spec['s']
    b.nreads = len(spec['s']['reads'])
    b.read = DOM[spec['dom']].reader(spec['s'], b.built)
    return b


def names_of(b):
    return dict((k, o.name_system) for k, o in b.built.items())
