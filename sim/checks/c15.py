"""C15: the inventory of propagated fields is one closure, whatever the order it is worked out in."""
import random

import numpy as np

from ..core import Skip, Violation, expect
from ..dom import common, work

ID = 'C15'
LEVEL = 'exploration'
QUICK = 900
THOROUGH = 20000
RUN_WALL = 100
RULE = ('a seeded network of any domain (half of them with noise sources) is stated three times in the same words but in different seeded orders, and set up with every '
        'unordered set/worklist of the engine ordered by the seed; the inventories of fields, couplings, sources and requests must be equal, be the fixed point of a plain '
        'round-robin closure, be closed under the couplings, hold nothing unreachable, and junctions must couple all their ports; non-trivial: more than one field key at some port')
REAL = ['phasor.system (ports and matrix algorithms, bond completion)', 'the system_setup_ports/system_setup_coupling of all elements in the network']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler', 'reference closure: the worklist replaced by round-robin sweeps over complete sets']
ASSUMPTIONS = ['what an element asks for, given the complete key sets of its ports, is taken from the element itself; wrong requests of an element show as wrong values in C01-C05 and C14']


def gen(rng, tier):
    spec = work.gen(rng, tier, noisy=.4)
    for f in spec['s'].get('freqs', ()):
        # thousands of keys at every mixer say no more than tens
        f['order'] = min(f['order'] or 2, 2)
    spec['orders'] = [rng.getrandbits(30) for _ in range(2 if tier == 'quick' else 3)]
    return spec


def shrink(spec):
    for s in work.shrink(spec):
        yield dict(s, orders=spec['orders'])


def canon(o):
    from phasor.base.dictionary_keys import DictKey, FrequencyKey
    if isinstance(o, FrequencyKey):
        return ('F',) + tuple(sorted((f.name_system, n) for f, n in o.F_dict.items() if n))
    if isinstance(o, DictKey):
        return tuple(sorted((k, canon(v)) for k, v in o.items()))
    if isinstance(o, (tuple, list)):
        return tuple(canon(x) for x in o)
    if isinstance(o, (str, int)) or o is None:
        return o
    n = getattr(o, 'name_system', None)
    return n if n is not None else repr(o)


class Inventory(object):
    def __init__(self, sys):
        from phasor.base.ports import ElementKey, PortKey
        P, M = sys.port_algo, sys.matrix_algorithm
        cs = M.coherent_subgraph_bunch
        # the ports of the junctions made for multiple bonds are numbered in no particular order: they are told by whom they face
        self.made = {}
        pair = {}
        for a, d in sys.bond_pairs.items():
            for b in d:
                pair.setdefault(a, set()).add(b)
                pair.setdefault(b, set()).add(a)
        for p in P.port_cplgs:
            if str(p[ElementKey]).endswith('.connection'):
                faces = []
                for q in pair.get(p, ()):
                    faces.append(q[ElementKey] if str(q[ElementKey]).endswith('.connection') else (q[ElementKey], q[PortKey]))
                self.made[p[ElementKey], p[PortKey]] = '%r%s' % (sorted(map(repr, faces)), p[PortKey][-1])
        self.ek, self.pk = ElementKey, PortKey
        self.names = {}
        self.P, self.M, self.sys = P, M, sys
        self.fields = set((self.port(p), canon(k)) for p, ks in P.port_cplgs.items() for k in ks)
        self.parts = {
            'fields': self.fields,
            'ports': set(self.port(p) for p in P.port_cplgs),
            'bonds': set((self.port(a), self.port(b)) for a, d in sys.bond_pairs.items() for b in d),
            'drives': set((canon(s), self.pkey(x)) for s, v in P.drive_pk_sets.items() for x in v),
            'readouts': set((canon(s), self.pkey(x)) for s, v in P.readout_pk_sets.items() for x in v),
            'couplings': set((self.pkey(a), self.pkey(b), len(v)) for (a, b), v in M.coupling_matrix_injlist.items()),
            'sources': set((self.pkey(a), len(v)) for a, v in M.source_vector_injlist.items()),
            'noise': set((self.pkey(a), self.pkey(b), len(v)) for a, d in M.coupling_noise_map.items() for b, v in d.items()),
            'lit': set(self.pkey(x) for x in cs.active),
            'inputs': set(self.pkey(x) for x in cs.inputs_set),
            'needed': set(self.pkey(x) for x in cs.outputs_set),
            'graph': set((self.pkey(a), self.pkey(b)) for a, d in cs.seq_full.items() for b in d),
            'solved': set((self.pkey(a), self.pkey(b)) for a, d in cs.seq_perturb.items() for b in d),
            'AC in': set(self.pkey(x) for x in M.AC_in_all),
            'AC out': set(self.pkey(x) for x in M.AC_out_all),
        }

    def port(self, p):
        try:
            return self.names[p]
        except KeyError:
            pass
        c = dict(p.items())
        m = self.made.get((c[self.ek], c[self.pk]))
        if m is not None:
            c[self.pk] = m
        r = self.names[p] = tuple(sorted(c.items()))
        return r

    def pkey(self, x):
        if isinstance(x[0], int):
            # stands for a group of couplings numbered in the order of their creation
            ins, outs, _ = self.M.floating_in_out_func_pair_injlist[x[0]].floating_in_out_func_pairs[x[1]]
            r = self.names.get(x)
            if r is None:
                r = self.names[x] = ('group', '%r' % (sorted(repr(self.pkey(y)) for y in ins),), '%r' % (sorted(repr(self.pkey(y)) for y in outs),))
            return r
        return (self.port(x[0]), canon(x[1]))


def few(s):
    return ', '.join(repr(x) for x in sorted(s, key=repr)[:3])


def differ(what, name, a, b):
    if a != b:
        raise Violation('order-dependent-' + name.replace(' ', '-'), '%s: %s: %d against %d, only the first has %s, only the second has %s'
                        % (what, name, len(a), len(b), few(a - b) or 'none', few(b - a) or 'none'))


def swept():
    """the fixed point by sweeping all elements with the complete sets of keys until nothing is added"""
    from phasor.system.ports_algorithm import PortUpdatesAlgorithm

    class Plain(PortUpdatesAlgorithm):
        def _setup_port_needs(self):
            self.grew = True
            # only the owners of ports are ever asked
            owners = set(self.system.port_owners.values())
            for v in self.system.port_owners_virtual.values():
                owners |= set(v)
            els = sorted(self.system.elements, key=lambda e: e.name_system)
            for el in els:
                f = getattr(el, 'system_setup_ports_initial', None)
                if f is not None:
                    f(self)
            els = [e for e in els if e in owners]
            n = 0
            while self.grew:
                self.grew = False
                n += 1
                for el in els:
                    f = getattr(el, 'system_setup_ports', None)
                    if f is not None:
                        self._current_element = el
                        # what is added while it is looked at counts for the next sweep
                        self.now = dict((p, set(s)) for p, s in self.port_cplgs.items())
                        f(self)
                        self._current_element = None
            self.sweeps = n

        def port_update_get(self, port):
            return self.now[port]

        def port_full_get(self, port):
            return set(self.now[port])

        def port_set_get(self, port):
            return self.now[port]

        def _coherent_sources_needed(self, pto, kto):
            s = self.port_cplgs.get(pto)
            if s is not None and kto not in s:
                s.add(kto)
                self.grew = True

    return Plain


def one(spec, order, algorithm=None):
    from phasor.system import ports_algorithm as pa
    common.ORDER[0] = order
    kept = pa.PortUpdatesAlgorithm
    try:
        b = work.build(spec)
        if algorithm is not None:
            pa.PortUpdatesAlgorithm = algorithm
        b.sys.solution
    finally:
        common.ORDER[0] = None
        pa.PortUpdatesAlgorithm = kept
    return b


def run(spec, env):
    # also refuses what has no one solution
    W = work.Want(spec)
    first = b1 = None
    for n, order in enumerate(spec['orders']):
        b = one(spec, order)
        inv = Inventory(b.sys)
        if first is None:
            first, b1 = inv, b
            check(inv, env)
        else:
            for k in sorted(inv.parts):
                differ('statement %d' % n, k, first.parts[k], inv.parts[k])
    env.count('fields', len(first.fields))
    env.count('couplings', len(first.parts['couplings']))
    env.count('dom_' + spec['dom'])
    # nothing beyond the fixed point of the plain sweeps; what is left out of it is not felt by any reading
    b2 = one(spec, spec['orders'][0], swept())
    C = b2.sys.port_algo
    env.count('sweeps', C.sweeps)
    plain = Inventory(b2.sys)
    if first.fields != plain.fields:
        raise Violation('not-the-closure', 'missing %s; superfluous %s' % (few(plain.fields - first.fields) or 'none', few(first.fields - plain.fields) or 'none'))
    for nm in ('drives', 'readouts'):
        differ('plain sweeps', nm, first.parts[nm], plain.parts[nm])
    for name in W.names():
        if name[0] not in ('r', 'psd', 'n', 'csd'):
            continue
        if name[0] == 'r':
            t = W.reads[name[1]][1]
        else:
            t = W.csd(name[2], name[3])[1] if name[0] == 'csd' else W.csd(name[1], name[1])[1]
        got, want = work.observe(spec, b1, name), work.observe(spec, b2, name)
        expect('left-out', '%r with the fields left out against without' % (name,), got, want, 1e-6, np.asarray(t) + 1e-15)
        env.count('readings')


def check(inv, env):
    # closed: what a field couples to is a field, and both sides of every bond hold the same
    f = inv.fields
    for a, b, n in inv.parts['couplings']:
        if b not in f:
            raise Violation('open', 'coupling into %r which is no field' % (b,))
    for pa, pb in inv.parts['bonds']:
        ka = set(k for p, k in f if p == pa)
        kb = set(k for p, k in f if p == pb)
        if ka != kb:
            raise Violation('open', 'bonded ports %r and %r hold different keys: %s' % (pa, pb, few(ka ^ kb)))
    # everything asked for is there
    for s, x in inv.parts['drives'] | inv.parts['readouts']:
        if x not in f and not any(k == '№' for k, v in x[0]):
            raise Violation('open', 'requested %r is no field' % (x,))
    junctions(inv, env)


def junctions(inv, env):
    """every port of a junction couples into every other"""
    from phasor.base.ports import ElementKey
    by = {}
    for p, k in inv.fields:
        el = dict(p)[ElementKey]
        by.setdefault(el, set()).add((p, k))
    out = {}
    for a, b, n in inv.parts['couplings']:
        out.setdefault(a, set()).add(b)
    for el in inv.sys.elements:
        if type(el).__name__ != 'Connection':
            continue
        mine = by.get(el.name_system, ())
        ins = [x for x in mine if dict(x[0])[inv.pk].endswith('⥳')]
        outs = [x for x in mine if dict(x[0])[inv.pk].endswith('⥲')]
        ports = set(p for p, k in ins)
        for x in ins:
            got = set(p for p, k in out.get(x, ()) if k == x[1])
            want = set(p for p, k in outs if k == x[1])
            if len(want) != len(ports) or got != want:
                raise Violation('open-junction', '%s: %r reaches %d of %d ports' % (el.name_system, x, len(got), len(ports)))
        env.count('junctions')
