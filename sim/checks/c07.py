"""C07: families of systems: histories of regenerate / override / extend / read operations."""
import copy
import json
import random

import numpy as np

from ..core import Skip, Violation, expect, rnd
from ..dom import elec, mech, noise, optic, sig, work
from .c06 import freeze, same

ID = 'C07'
LEVEL = 'exploration'
QUICK = 1600
THOROUGH = 40000
RUN_WALL = 200
RULE = ('a seeded network of any domain and a seeded history of 2-8 operations on the family of systems regenerated from it (regenerate any member with overrides '
        'through a configuration tree, a view, a reused tree or keyword arguments; add readouts, elements and bonds to a member; read any member); every value '
        'read is compared with the reference for that member\'s own parameters; non-trivial: at least one regeneration')
REAL = ['phasor.base (autograft, bases, multi_unit_args, ports)', 'phasor.system', 'phasor.readouts', 'element libraries of all domains', 'declarative bunches']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['wanted values come from the reference models of C01-C05 with their tolerances',
               'a configuration tree given to regenerate replaces the parent\'s tree; keyword arguments accumulate; a tree wins over keyword arguments and constructor arguments']


# ---- overridable parameters ------------------------------------------------------------------

def points(s, rng):
    """overridable parameters of a domain spec: list of (kind, element key or None, tree path, unit ('m', {alt: factor}) or None, spec path, new value)"""
    out = []
    dom = s['dom']
    F = s['F']
    one = lambda f: float('%.4g' % (f * 10 ** rng.uniform(-1, 1)))
    nF = [one(f) for f in F] if isinstance(F, list) else one(F)
    out.append((None, ('environment', 'F_AC', 'frequency'), 'Hz', ('F',), nF))
    if 'ss' in s:
        out.append((None, ('sided_spectra',), None, ('ss',), 3 - s['ss']))
    if 'johnson' in s:
        out.append((None, ('include_johnson_noise',), None, ('johnson',), not s['johnson']))
        out.append((None, ('symbols', 'temp_K'), None, ('temp',), rnd(rng, 4, 400)))
    for i, e in enumerate(s['els']):
        k, t = 'e%d' % i, e['t']
        P = lambda *f: ('els', i) + f

        def mirror(m, tp, *f):
            lt, l = m.get('Lt', 0), m.get('L', 0)
            out.append((k, tp + ('T_hr',), None, P(*f + ('T',)), min(.99 - l, max(lt * 1.1, rnd(rng, .01, .9)))))
            if m.get('T', 0) < .9:
                out.append((k, tp + ('L_hr',), None, P(*f + ('L',)), rnd(rng, 1e-4, .09)))
            if m.get('T', 0) > 1e-2:
                out.append((k, tp + ('L_t',), None, P(*f + ('Lt',)), round(m['T'] * rng.random() * .5, 6)))
        if dom == 'optic':
            if t == 'M':
                mirror(e, ())
            elif t == 'PM':
                mirror(e['S'], ('mirror_S',), 'S')
                mirror(e['P'], ('mirror_P',), 'P')
            elif t == 'LAS':
                out.append((k, ('power',), 'W', P('P'), rnd(rng, .1, 5)))
                out.append((k, ('polarization',), None, P('pol'), rng.choice('SP')))
            elif t == 'SP':
                out.append((k, ('length',), 'm', P('L'), rnd(rng, .1, 100)))
                out.append((k, ('L_detune',), 'm', P('det'), rnd(rng, 1e-8, 1e-6)))
            elif t in ('HWP', 'QWP', 'ROT', 'FAR'):
                out.append((k, ('rotate',), 'deg', P('deg'), round(rng.uniform(-180, 180), 2)))
        elif dom == 'conv':
            if t == 'LAS':
                out.append((k, ('power',), 'W', P('P'), round(e['P'] * rng.uniform(.3, 1), 4)))
                out.append((k, ('polarization',), None, P('pol'), e['pol']))
            elif t == 'SP':
                out.append((k, ('length',), 'm', P('L'), rnd(rng, .1, 5)))
            elif t == 'ROT':
                out.append((k, ('rotate',), 'deg', P('deg'), round(rng.uniform(-180, 180), 2)))
            elif t == 'GEN':
                out.append((k, ('amplitude',), None, P('amp'), round(e['amp'] * rng.uniform(.3, 1), 4)))
        elif dom == 'sig':
            if t == 'GEN':
                out.append((k, ('amplitude',), None, P('amp'), rnd(rng, .1, 2)))
            elif t == 'FUN':
                for f, c in (('cut', 'F_cutoff'), ('cutlow', 'F_cutoff_low')):
                    if f in e:
                        out.append((k, (c,), None, P(f), rnd(rng, 10, 1e5) if f == 'cut' else rng.choice([0, rnd(rng, 10, 1e5)])))
                if 'noDC' in e:
                    out.append((k, ('no_DC',), None, P('noDC'), not e['noDC']))
            elif t == 'MECH':
                out.append((k, ('mass_kg',), None, P('m'), rnd(rng, .1, 10)))
                out.append((k, ('center_Hz',), None, P('f0'), rnd(rng, 1, 1e3)))
                if 'q' in e:
                    out.append((k, ('q_factor',), None, P('q'), rnd(rng, 1, 100)))
            elif t in ('SUM', 'DIST'):
                out.append((k, ('port_gains',), None, P('g'), [rnd(rng, .1, 2) * rng.choice([-1, 1]) for _ in e['g']]))
    for q, f in enumerate(s.get('shifts', ())):
        out.append((('sys', 'Fshift%d' % q), ('frequency',), 'Hz', ('shifts', q), rnd(rng, 1e3, 3e7)))
    for q, f in enumerate(s.get('freqs', ())):
        if dom == 'conv':
            out.append((('sys', 'Fmix%d' % q), ('frequency',), 'Hz', ('freqs', q, 'F'), float('%.4g' % (f['F'] * rng.uniform(.9, 1.1)))))
        else:
            out.append((('sys', 'Fgen%d' % q), ('frequency',), 'Hz', ('freqs', q, 'f'), rnd(rng, 10, 1e6)))
    return out


ALT = {'Hz': {'kHz': 1e3, 'MHz': 1e6}, 'W': {'mW': 1e-3, 'kW': 1e3}, 'm': {'mm': 1e-3, 'km': 1e3, 'um': 1e-6}, 'deg': {}}


def put(s, path, v):
    """s with the field at path replaced"""
    if not path:
        return v
    if isinstance(s, list):
        return [put(x, path[1:], v) if k == path[0] else x for k, x in enumerate(s)]
    return dict(s, **{path[0]: put(s.get(path[0]), path[1:], v)})


def physical(s):
    """whether every mirror of the spec, overridden as it is, has nonnegative loss everywhere"""
    if s['dom'] != 'optic':
        return True
    ms = [m for e in s['els'] for m in ((e,) if e['t'] == 'M' else (e['S'], e['P']) if e['t'] == 'PM' else ())]
    return all(m.get('Lt', 0) <= m['T'] * .95 and m['T'] + m.get('L', 0) <= .999 for m in ms if 'Lt' in m or 'L' in m)


def gen(rng, tier):
    w = work.gen(rng, tier, noisy=.35)
    n = rng.choice([2, 3, 4, 5, 8])
    ops = []
    members = 1
    for _ in range(n):
        k = rng.choice(['regen'] * 5 + ['read'] * 2 + ['ro', 'add'])
        m = rng.choice([0, members - 1, rng.randrange(members)])
        if k == 'regen':
            ov = []
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                pts = points(w['s'], rng)
                root = [p for p in pts if p[0] is None]
                el = [p for p in pts if p[0] is not None]
                p = rng.choice(el if el and rng.random() < .75 else root)
                alt = rng.choice(sorted(ALT[p[2]])) if p[2] and ALT[p[2]] and rng.random() < .25 else None
                ov.append([p[0] if not isinstance(p[0], tuple) else list(p[0]), list(p[1]), p[2], alt, list(p[3]), p[4]])
            how = rng.choice(['none', 'tree', 'tree', 'tree', 'dict', 'view', 'reuse', 'reuse', 'kw'])
            ops.append(['regen', m, how, ov])
            members += 1
        elif k == 'read':
            ops.append(['read', m, rng.randrange(1000), rng.choice([1, 1, 3])])
        elif k == 'ro':
            ops.append(['ro', m, rng.randrange(1000), rng.choice(['DC', 'AC', 'mine'])])
        else:
            ops.append(['add', m, rng.getrandbits(24)])
    if not any(o[0] == 'regen' for o in ops):
        ops.insert(0, ['regen', 0, 'none', []])
    w['ops'] = ops
    return w


def shrink(spec):
    ops = spec['ops']
    for i in range(len(ops)):
        rest = ops[:i] + ops[i + 1:]
        if ops[i][0] == 'regen':
            # later members move up
            me = 1 + sum(1 for o in ops[:i] if o[0] == 'regen')
            par = ops[i][1]
            rest = ops[:i] + [[o[0], par if o[1] == me else o[1] - (o[1] > me)] + o[2:] for o in ops[i + 1:]]
        yield dict(spec, ops=rest)
    for i, o in enumerate(ops):
        if o[0] == 'regen':
            for k in range(len(o[3])):
                yield dict(spec, ops=ops[:i] + [o[:3] + [o[3][:k] + o[3][k + 1:]]] + ops[i + 1:])
            if o[2] not in ('tree', 'none'):
                yield dict(spec, ops=ops[:i] + [['regen', o[1], 'tree', o[3]]] + ops[i + 1:])
    if not any(o[0] == 'add' or (o[0] == 'regen' and o[3]) for o in ops):
        for s in work.shrink(spec):
            yield s
    elif spec['noisy'] is False:
        for k in range(len(spec['s']['reads'])):
            if len(spec['s']['reads']) > 1:
                yield dict(spec, s=dict(spec['s'], reads=spec['s']['reads'][:k] + spec['s']['reads'][k + 1:]))


# ---- members ------------------------------------------------------------------------------------

class Member(object):
    pass


def run(spec, env):
    from declarative.bunch import DeepBunch
    from phasor import readouts
    wants = {}

    def want(s):
        key = json.dumps(s, sort_keys=True)
        if key not in wants:
            try:
                if not physical(s):
                    raise Skip('mirror without energy conservation')
                wants[key] = work.Want(dict(spec, s=s))
            except Skip as e:
                wants[key] = e
        return wants[key]

    def effective(m):
        """the domain spec a member stands for: constructor arguments < keyword overrides < tree"""
        s = m.base
        for src in (m.kw, m.tree):
            for path, v in src:
                s = put(s, path, v)
        return s

    if work.lines(spec) > 30 and len(spec['s']['els']) > 3:
        raise Skip('too expensive')
    want(spec['s'])
    if isinstance(want(spec['s']), Skip):
        raise want(spec['s'])
    b0 = work.build(spec)
    root = Member()
    root.b = b0
    root.sys = b0.sys
    root.names = work.names_of(b0)
    root.base = spec['s']
    root.kw, root.tree = (), ()
    root.extra = ()
    root.frozen = root.children = False
    root.label = 'original'
    fam = [root]
    kept = []
    reused = [DeepBunch(), ()]
    clock = [0]

    def check(m, name):
        W = want(effective(m))
        if isinstance(W, Skip):
            return
        bb = work.reader(dict(spec, s=effective(m)), m.names, m.sys)
        m.frozen = True
        what = '%s: observation %r' % (m.label, name)
        if name[0] == 'ro':
            key, i = name[1:]
            o = bb.built[key]
            v = o.DC_readout if isinstance(o, readouts.DCReadout) else o.AC_sensitivity
            W.check(('r', i), v, bb, what)
        else:
            v = work.observe(dict(spec, s=effective(m)), bb, name)
            W.check(name, v, bb, what)
        kept.append((m.label, name, v, freeze(v)))
        env.count('reads')

    def all_names(m):
        W = want(effective(m))
        if isinstance(W, Skip):
            return []
        return W.names() + [('ro', key, i) for key, i in m.extra]

    def treepath(m, ov):
        key, tp = ov[0], tuple(ov[1])
        if key is None:
            return tp
        if isinstance(key, list):
            return (key[1],) + tp
        return tuple(m.names[key].split('.')) + tp

    def treevalue(m, ov):
        """what to put into the tree: list of (path, value)"""
        p = treepath(m, ov)
        v = ov[5]
        if isinstance(v, list):
            v = {'p%d' % k: g for k, g in enumerate(v)} if p[-1] == 'port_gains' else np.array(v)
        if ov[2] is None:
            return [(p, v)]
        if ov[3] is None:
            return [(p + ('val',), v), (p + ('units',), ov[2])]
        return [(p + ('val',), v / ALT[ov[2]][ov[3]]), (p + ('units',), ov[3])]

    def nested(d, path, v):
        for q in path[:-1]:
            d = d.setdefault(q, {})
        d[path[-1]] = v

    def deep(d, path, v):
        for q in path[:-1]:
            d = d[q]
        d[path[-1]] = v

    def plain(d):
        if hasattr(d, 'items'):
            return dict((k, plain(x)) for k, x in d.items())
        return freeze(d)

    def regenerate(m, how, ovs):
        n = Member()
        n.base = m.base
        n.names = dict(m.names)
        n.extra = m.extra
        n.frozen = n.children = False
        n.label = 'system %d (from %s)' % (len(fam), fam.index(m))
        n.kw, n.tree = m.kw, m.tree
        kwargs = {}
        given = None
        snap = None
        mine = tuple((tuple(o[4]), o[5]) for o in ovs)
        if how == 'kw':
            for o in ovs:
                nm = {'F': 'F_AC', 'ss': 'sided_spectra', 'johnson': 'include_johnson_noise'}.get(o[4][0]) if o[0] is None else None
                if nm:
                    kwargs[nm] = np.array(o[5]) if isinstance(o[5], list) else o[5]
                    n.kw = n.kw + ((tuple(o[4]), o[5]),)
                    env.count('kw_overrides')
        elif how == 'dict':
            given = {}
            for o in ovs:
                for p, v in treevalue(m, o):
                    nested(given, p, v)
            n.tree = mine
        elif how == 'tree':
            given = DeepBunch()
            for o in ovs:
                for p, v in treevalue(m, o):
                    deep(given, p, v)
            n.tree = mine
        elif how == 'reuse':
            given = reused[0]
            for o in ovs:
                for p, v in treevalue(m, o):
                    deep(given, p, v)
            reused[1] = reused[1] + mine
            n.tree = reused[1]
        elif how == 'view':
            given = m.sys.ctree_shadow()
            for o in ovs:
                for p, v in treevalue(m, o):
                    deep(given, p, v)
            n.tree = mine
        if how in ('dict', 'tree', 'reuse'):
            snap = plain(given)
        if isinstance(want(effective(n)), Skip):
            if how == 'reuse':
                raise want(effective(n))
            return
        if given is not None:
            kwargs['ctree'] = given
        n.sys = m.sys.regenerate(**kwargs)
        n.sys.max_N = m.sys.max_N
        m.children = True
        fam.append(n)
        env.count('regenerations')
        env.count('via_' + how)
        env.count('overrides', len(ovs))
        if snap is not None:
            n.given = (given, snap) if how != 'reuse' else None
            if not same(plain(given), snap):
                raise Violation('tree-mutated', 'the configuration tree given to regenerate was modified')
        else:
            n.given = None

    def add_readout(m, k, ps):
        names = [i for i, r in enumerate(spec['s']['reads'])]
        i = names[k % len(names)]
        if ('r', i) not in want(effective(m)).names() if not isinstance(want(effective(m)), Skip) else True:
            return
        key = work.rkey(spec, i)
        if key not in m.names or spec['s']['reads'][i]['k'] == 'OL':
            return
        o = m.sys[m.names[key]]
        if type(o) is readouts.DCReadout:
            new = readouts.DCReadout(port=o.port, port_set=ps)
        elif type(o) is readouts.ACReadout and o.portDrv is o.portD:
            new = readouts.ACReadout(portD=o.portD, portN=o.portN, port_set=ps, include_noise=False)
        else:
            return
        clock[0] += 1
        nm = 'x_more%d' % clock[0]
        m.sys.insert(new, nm)
        key = 'more%d' % clock[0]
        m.names[key] = nm
        m.extra = m.extra + ((key, i),)
        env.count('added_readouts')

    def add_element(m, seed):
        rr = random.Random(seed)
        s = m.base
        dom = spec['dom']
        i = rr.randrange(len(s['els'])) if s['els'] else None
        if i is None:
            return
        e = s['els'][i]
        clock[0] += 1
        nm = 'x_elm%d' % clock[0]
        key = 'e%d' % len(s['els'])

        def obj():
            return m.sys[m.names['e%d' % i]]
        if dom == 'elec':
            import phasor.electronics as el
            p = rr.randrange(len(e['n']))
            ne = dict(t=rr.choice(['TR', 'TC']), R=rnd(rr, 10, 1e4), C=rnd(rr, 1e-9, 1e-6), n=[e['n'][p]])
            ns = dict(s, els=s['els'] + [ne])

            def act():
                m.sys.insert(elec.factory(ne, el), nm)
                a, b = getattr(obj(), elec.PORTS[e['t']][p]), m.sys[nm].pe_A
                (a.bond(b) if rr.random() < .5 else b.bond(a))
        elif dom == 'mech':
            import phasor.mechanical as me
            ps = mech.ports_of(e)
            if not ps:
                return
            path, nd = rr.choice(ps)
            if '.' in path:
                return
            ne = dict(t=rr.choice(['TD', 'TK']), R=rnd(rr, .1, 100), k=rnd(rr, 1, 1e4), n=[nd])
            ns = dict(s, els=s['els'] + [ne])

            def act():
                m.sys.insert(mech.factory(ne, me), nm)
                a, b = mech.dotted(obj(), path), m.sys[nm].pm_A
                (a.bond(b) if rr.random() < .5 else b.bond(a))
        elif dom == 'sig' and s['kind'] == 'lin':
            outs = [(j, p) for j, x in enumerate(s['els']) for p in range(len(sig.outs_of(x)))]
            ins = [(j, p) for j, x in enumerate(s['els']) for p in range(len(sig.ins_of(x)))]
            if not outs or not ins:
                return
            a, b = rr.choice(outs), rr.choice(ins)
            if [list(a), list(b)] in [[list(x), list(y)] for x, y in s['edges']]:
                return
            if s['els'][a[0]]['t'] == s['els'][b[0]]['t'] == 'NODE':
                return
            ns = dict(s, edges=s['edges'] + [[list(a), list(b)]])
            key = None

            def act():
                pa = sig.port(m.sys[m.names['e%d' % a[0]]], s['els'][a[0]], 'o', sig.outs_of(s['els'][a[0]])[a[1]])
                pb = sig.port(m.sys[m.names['e%d' % b[0]]], s['els'][b[0]], 'i', sig.ins_of(s['els'][b[0]])[b[1]])
                (pa.bond(pb) if rr.random() < .5 else pb.bond(pa))
        elif dom == 'optic':
            used = set(tuple(x) for ab in s['bonds'] for x in ab)
            free = [(j, p) for j, x in enumerate(s['els']) for p in range(len(optic.ports_of(x))) if (j, p) not in used]
            if len(free) < 2:
                return
            a, b = rr.sample(free, 2)
            if a[0] == b[0]:
                return
            ns = dict(s, bonds=s['bonds'] + [[list(a), list(b)]])
            key = None

            def act():
                pa, pb = (getattr(m.sys[m.names['e%d' % q[0]]], optic.ports_of(s['els'][q[0]])[q[1]]) for q in (a, b))
                pa.bond(pb)
        else:
            return
        was = m.base
        m.base = ns
        if isinstance(want(effective(m)), Skip):
            m.base = was
            return
        act()
        if key is not None:
            m.names[key] = nm
        env.count('added_' + dom)

    for op in spec['ops']:
        if op[1] >= len(fam):
            continue
        m = fam[op[1]]
        if op[0] == 'regen':
            if len(fam) < (3 if spec['s'].get('kind') == 'mod' else 6):
                regenerate(m, op[2], op[3])
        elif op[0] == 'read':
            names = all_names(m)
            for k in range(op[3]):
                if names:
                    check(m, names[(op[2] + 7 * k) % len(names)])
        elif not m.frozen and not m.children:
            # (a regenerated system takes its elements over lazily: only a member nothing was regenerated from is extended)
            if op[0] == 'ro':
                add_readout(m, op[2], op[3])
            else:
                add_element(m, op[2])
    rr = random.Random(len(fam) * 1000 + len(kept))
    order = list(fam)
    rr.shuffle(order)
    for m in order:
        names = all_names(m)
        rr.shuffle(names)
        for name in names[:8]:
            check(m, name)
        if getattr(m, 'given', None) is not None and not same(plain(m.given[0]), m.given[1]):
            raise Violation('tree-mutated', 'the configuration tree given to regenerate was modified by reading')
        # nothing added to another member shows up here
        own = set(m.names.values())
        for o in fam:
            for nm in o.names.values():
                if nm not in own and nm.startswith('x_'):
                    try:
                        m.sys[nm]
                    except KeyError:
                        continue
                    raise Violation('foreign-element', '%s has element %s, which was added to %s' % (m.label, nm, o.label))
    # every system still gives what it gave
    for m in order:
        names = [k for k in kept if k[0] == m.label]
        if names:
            lab, name, v, was = rr.choice(names)
            check(m, name)
    for lab, name, v, was in kept:
        if not same(v, was):
            raise Violation('mutated', 'the result of %s handed out for %r changed afterwards' % (lab, name))
