"""C13: beam lines edited and queried in any order."""
import contextlib
import copy
import random

import numpy as np

from ..core import Skip, Violation, expect
from ..dom import beam
from ..intr import INJECTED, KINDS, Points

ID = 'C13'
LEVEL = 'exploration'
QUICK = 6000
THOROUGH = 60000
RUN_WALL = 100
RULE = ('a seeded beam line (thin and thick lenses, mirrors, generic elements, substrates, nested and reversed systems, replicas, beam targets given directly or by '
        'the eigenmode of a cavity) is built by a seeded history of insertions in any order, queries of every kind, regenerations and queries cut short by injected '
        'exceptions; every answer is compared with the ordered product of ideal matrices of the layout of that moment; non-trivial: at least three queries were compared')
REAL = ['phasor.alm (layouts, elements, measurements, beam parameters)', 'phasor.base (autograft: insertion, invalidation, replicas, regeneration; parameters with units)',
        'phasor.math.complex', 'declarative memoized properties']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler', 'exceptions: seeded fault plan']
ASSUMPTIONS = ['elements do not overlap', 'positions asked are not exactly those of an element (except through its own targets)',
               'a curvature, focal length and index are those of the declared ideal element: refraction in reduced form (ray slope times index)']


# ---------------------------------------------------------------- generation

def r(rng, a, b, nd=4):
    return round(rng.uniform(a, b), nd)


def sgn(rng):
    return rng.choice([-1, 1])


def mkitem(rng, n, k, depth, size, unit):
    it = dict(k=k, n=n, unit=unit)
    if rng.random() < .15:
        it['rev'] = True
    if k == 'target':
        if rng.random() < .2:
            L = r(rng, .05, .6)
            it['cav'] = [dict(k='mirror', n='m1', R=round(L * r(rng, .7, 4), 4), loc=0., unit='m'),
                         dict(k='mirror', n='m2', R=round(L * r(rng, .7, 4), 4), loc=L, unit='m'),
                         dict(k='nop', n='end', loc=2 * L, unit='m')]
            if rng.random() < .4:
                it['cav'].append(dict(k='lens', n='f', f=round(sgn(rng) * L * r(rng, 2, 9), 4), loc=round(L * .4, 5), unit='m'))
        else:
            it['q'] = [r(rng, -1, 1), r(rng, .02, 1.5)]
            if rng.random() < .15:
                it['hidden'] = True
    elif k == 'lens':
        it['f'] = round(sgn(rng) * r(rng, .1, 2), 4)
    elif k == 'mirror':
        it['R'] = rng.choice([None, 1, 1, 1]) and round(sgn(rng) * r(rng, .2, 3), 4)
    elif k == 'abcd':
        it['A'], it['B'], it['C'] = r(rng, .6, 1.6, 3), r(rng, -.3, .3, 3), r(rng, -1, 1, 3)
    elif k in ('plcx', 'plcxm'):
        it['R'], it['L'] = rng.choice([None, 1, 1, 1]) and round(sgn(rng) * r(rng, .15, 2), 4), round(r(rng, .003, .06), 5)
    elif k == 'cxcx':
        it['R1'], it['R2'], it['L'] = round(sgn(rng) * r(rng, .15, 2), 4), round(sgn(rng) * r(rng, .15, 2), 4), round(r(rng, .003, .06), 5)
    elif k == 'space':
        it['L'] = r(rng, .01, .5)
        if rng.random() < .4:
            it['sub'] = rng.choice(['fused_silica', 'PPKTP'])
    elif k == 'sys':
        it['rev'] = rng.random() < .5
        it['items'] = mkline(rng, depth + 1, max(1, size // 2))
        if rng.random() < .25:
            truncate(rng, it)
    if k in ('plcx', 'cxcx', 'plcxm') and rng.random() < .3:
        it['sub'] = rng.choice(['BK7', 'PPKTP'])
    return it


def truncate(rng, it):
    """cut the system to the elements between boundaries in its gaps"""
    lay = beam.Layout(dict(wl=1064, env='vacuum', rev=False), [])
    items = sorted(it['items'], key=lambda i: i['loc'])
    edges = [(i['loc'], i['loc'] + lay._width(i)) for i in items]
    n = len(items)
    a = rng.randrange(n)
    b = rng.randint(a, n - 1)

    def gap(k):
        # somewhere between element k-1 and element k
        lo = edges[k - 1][1] if k > 0 else edges[0][0] - .3
        hi = edges[k][0] if k < n else edges[-1][1] + .3
        return None if hi - lo < .002 else round(lo + (hi - lo) * rng.uniform(.1, .9), 6)
    if rng.random() < .75:
        it['bl'] = gap(a)
    if rng.random() < .75:
        it['br'] = gap(b + 1)


def mkline(rng, depth, size):
    kinds = ['lens', 'mirror', 'nop', 'abcd', 'plcx', 'cxcx', 'plcxm', 'space', 'target', 'target', 'lens']
    if depth < 2:
        kinds += ['sys', 'sys']
    items = []
    at = r(rng, -1, 1)
    unit = rng.choice(['m', 'm', 'mm', 'in', 'cm'])
    names = ['e%d' % i for i in range(size)]
    rng.shuffle(names)
    # names need not be given in the order of places
    lay = beam.Layout(dict(wl=1064, env='vacuum', rev=False), [])
    for n in names:
        it = mkitem(rng, n, rng.choice(kinds), depth, size, unit if rng.random() < .8 else 'm')
        # places in the unit used, so that the ties are ties
        tie = items and rng.random() < .12
        if not tie:
            at += r(rng, .004, .8)
        else:
            prev = items[-1]
            # two thin elements at one place have no order to ask for
            it['unit'] = prev['unit']
            if prev['k'] not in ('lens', 'nop', 'mirror') or it['k'] not in ('plcx', 'space'):
                at += .05
        it['loc'] = round(at / beam.UNIT[it['unit']], 6) * beam.UNIT[it['unit']]
        at = it['loc'] + lay._width(it)
        items.append(it)
    return items


def paths(items, prefix=''):
    for it in items:
        yield prefix + it['n'], it
        if it['k'] == 'sys' and not it.get('of'):
            for p in paths(it['items'], prefix + it['n'] + '.'):
                yield p
        if it.get('cav'):
            for c in it['cav']:
                yield prefix + it['n'] + '.q_system.' + c['n'], c


QUERIES = ['pos', 'width', 'matrix', 'inv', 'between', 'between', 'between', 'chain', 'to_z', 'to_z', 'at_z', 'arr', 'q_z', 'q_arr', 'q_target', 'q_mat', 'overlap', 'overlap', 'gouy', 'gouy',
           'ztarget', 'targets', 'lenses', 'mirrors', 'waists', 'detunes', 'excursion', 'olist', 'sub', 'desc', 'spaces']


def gen(rng, tier):
    n = rng.choice([2, 3, 4, 5, 6, 8] if tier == 'quick' else [2, 3, 5, 7, 9, 12])
    items = mkline(rng, 0, n)
    spec = dict(items=items, rev=rng.random() < .3, env=rng.choice(['nitrogen', 'nitrogen', 'vacuum', 'BK7']), wl=rng.choice([1064, 1064, 532]))
    allp = list(paths(items))
    order = [p for p, it in allp]
    rng.shuffle(order)
    done, seq = set(), []

    def put(p):
        if p in done:
            return
        par = p.rsplit('.', 1)[0] if '.' in p else None
        if par is not None:
            if par.endswith('.q_system'):
                par = par[:-len('.q_system')]
            put(par)
        done.add(p)
        seq.append(['ins', p, rng.random() < .3])
    for p in order:
        put(p)
    ops = []
    lazy = rng.choice([0, .1, .5, 1.5])
    for s in seq:
        ops.append(s)
        while rng.random() < lazy / (1 + lazy):
            ops.append(['q', rng.choice(QUERIES), rng.getrandbits(24)])
        if rng.random() < .04:
            ops.append(['regen'])
    # a copy of one of the systems elsewhere
    syss = [p for p, it in allp if it['k'] == 'sys' and '.' not in p]
    if syss and rng.random() < .5:
        ops.append(['rep', rng.choice(syss), 'copy', r(rng, .1, 1), rng.random() < .5])
        if rng.random() < .5:
            ops.append(['rep', rng.choice(syss), 'copy2', r(rng, .1, 1), rng.random() < .5])
    ops += [['q', rng.choice(QUERIES), rng.getrandbits(24)] for _ in range(rng.choice([3, 6, 10]))]
    if rng.random() < .2:
        ops.append(['regen'])
        ops += [['q', rng.choice(QUERIES), rng.getrandbits(24)] for _ in range(4)]
    if rng.random() < .3:
        # some of the queries are cut short first
        for o in ops:
            if o[0] == 'q' and rng.random() < .4:
                o.append([rng.choice(sorted(KINDS)), int(10 ** rng.uniform(0, 3.4))])
    spec['ops'] = ops
    return spec


def shrink(spec):
    ops = spec['ops']
    for k in range(len(ops) - 1, -1, -1):
        if ops[k][0] in ('q', 'regen', 'rep'):
            yield dict(spec, ops=ops[:k] + ops[k + 1:])
        elif len(ops[k]) > 3:
            yield dict(spec, ops=ops[:k] + [ops[k][:3]] + ops[k + 1:])
    for k, o in enumerate(ops):
        if o[0] == 'ins' and not any(p[0] == 'ins' and p[1].startswith(o[1] + '.') for p in ops) and not any(p[0] == 'rep' and p[1] == o[1] for p in ops):
            yield dict(spec, ops=ops[:k] + ops[k + 1:])
    if spec['rev']:
        yield dict(spec, rev=False)
    if spec['env'] != 'vacuum':
        yield dict(spec, env='vacuum')


# ---------------------------------------------------------------- the layout of the moment

def flat(items):
    for it in items:
        yield it
        if it['k'] == 'sys':
            for i in flat(it['items']):
                yield i


class State(object):
    """which of the elements are there"""
    def __init__(self, spec):
        self.spec = spec
        self.there = set()
        self.extra = []

    def copy(self):
        s = State(self.spec)
        s.there = set(self.there)
        s.extra = copy.deepcopy(self.extra)
        return s

    def _filter(self, items, prefix=''):
        out = []
        for it in items:
            p = prefix + it['n']
            if p not in self.there:
                continue
            it = dict(it)
            if it['k'] == 'sys':
                it['items'] = self._filter(it['items'], p + '.')
            if it.get('cav'):
                it['cav'] = [c for c in it['cav'] if p + '.q_system.' + c['n'] in self.there]
            out.append(it)
        return out

    def items(self):
        return self._filter(self.spec['items']) + self.extra

    def layout(self):
        items = self.items()
        lay = beam.Layout(self.spec, items)
        lay.items = {}

        def walk(items, prefix, rev):
            for it in items:
                p = prefix + it['n']
                rr = rev ^ bool(it.get('rev'))
                lay.items[p] = it, rr
                if it['k'] == 'sys':
                    seen = lay._seen(it)
                    walk(seen, p + '.', rr)
        walk(items, '', bool(self.spec['rev']))
        # systems with nothing between their boundaries have no answers
        lay.empty = any(it['k'] == 'sys' and (it.get('bl') is not None or it.get('br') is not None) and not lay._seen(it) for it in flat(items))
        return lay


def beam_of(lay, path):
    it, rev = lay.items[path]
    if it.get('cav') is not None:
        sub = beam.Layout(dict(lay.spec, rev=rev), it['cav'])
        q = beam.eigen(sub.matrix()) if it['cav'] else None
        if q is None:
            return None
    else:
        q = complex(*it['q'])
        if rev:
            q = -q.conjugate()
    return beam.Beam(q, lay.wl * 1e-9)


# ---------------------------------------------------------------- the real thing

def subs():
    from phasor import alm
    from phasor.alm import substrates as s
    return dict(nitrogen=s.substrate_nitrogen, vacuum=s.substrate_vacuum, fused_silica=s.substrate_fused_silica, BK7=s.substrate_BK7, PPKTP=s.substrate_PPKTP)


def construct(it):
    from phasor import alm
    kw = {'loc_' + it['unit']: it['loc'] / beam.UNIT[it['unit']]}
    if it['unit'] == 'mm' or it['unit'] == 'cm' or it['unit'] == 'in':
        kw = {'loc_' + it['unit']: round(it['loc'] / beam.UNIT[it['unit']], 6)}
    if it.get('rev'):
        kw['reversed'] = True
    k = it['k']
    if k == 'target':
        if it.get('hidden'):
            kw['hidden'] = True
        if it.get('cav') is not None:
            return alm.BeamTarget(q_system=alm.System(loc_m=0), **kw)
        return alm.BeamTarget(q_raw=alm.ComplexBeamParam.from_Z_ZR(*it['q']), **kw)
    if k == 'lens':
        return alm.ThinLens(f_m=it['f'], **kw)
    if k == 'mirror':
        return alm.Mirror(R_m=it['R'], **kw)
    if k == 'nop':
        return alm.NoP(**kw)
    if k == 'abcd':
        return alm.ABCDGeneric(A=it['A'], B=it['B'], C=it['C'], **kw)
    if k == 'space':
        if it.get('sub'):
            kw['substrate'] = subs()[it['sub']]
        return alm.Space(L_m=it['L'], **kw)
    if k in ('plcx', 'plcxm', 'cxcx'):
        if it.get('sub'):
            kw['substrate_inner'] = subs()[it['sub']]
        if k == 'cxcx':
            return alm.CXCX(R1_m=it['R1'], R2_m=it['R2'], L_m=it['L'], **kw)
        return (alm.PLCX if k == 'plcx' else alm.PLCXMirror)(R_m=it['R'], L_m=it['L'], **kw)
    if k == 'sys':
        if it.get('bl') is not None:
            kw['boundary_left_m'] = it['bl']
        if it.get('br') is not None:
            kw['boundary_right_m'] = it['br']
        return alm.System(**kw)
    raise ValueError(k)


class Asker(object):
    """one query and what it should have given"""
    def __init__(self, env, state, sys, hist):
        self.env, self.state, self.sys, self.hist = env, state, sys, hist
        self.lay = state.layout()
        self.ms = sys.measurements
        self.els = sorted(self.lay.items)
        # names of targets which can be asked for
        self.tgts = [p for p in self.els if self.lay.items[p][0]['k'] == 'target' and not self.lay.items[p][0].get('hidden')]
        self.beams = dict((p, beam_of(self.lay, p)) for p in self.tgts)
        self.lit = [p for p in self.tgts if self.beams[p] is not None]
        lay = self.lay
        big = 1.
        m = beam.I2
        for p in lay.pieces:
            m = p[0].dot(m)
            big = max(big, np.max(np.abs(m)))
        self.big = big
        if big > 1e4:
            raise Skip('too steep')

    def mat(self, what, got, want, grow=1.):
        got = np.asarray(got, float)
        if got.shape != want.shape:
            raise Violation('wrong-shape', '%s: shape %r, wanted %r' % (what, got.shape, want.shape))
        expect('wrong-matrix', what + self.hist(), got, want, 1e-8, 1e-9 * self.big ** 2 * grow)

    def num(self, what, got, want, tol=1e-9):
        expect('wrong-place', what + self.hist(), got, want, 1e-9, tol)

    def cq(self, what, got, want):
        """beam parameter"""
        g = np.asarray(got.value.real) + 1j * np.asarray(got.value.imag)
        if isinstance(want, list):
            w = np.array([b.q for b in want])
            lam = want[0].lam
        else:
            w, lam = np.asarray(want.q), want.lam
        if g.shape != w.shape:
            raise Violation('wrong-shape', '%s: shape %r, wanted %r' % (what, g.shape, w.shape))
        scale = w.imag
        if np.any(scale < 1e-4) or np.any(np.abs(w) / scale > 1e4):
            self.env.count('steep_beam')
            return
        expect('wrong-beam', what + self.hist(), g / scale, w / scale, 0, 1e-7 * self.big ** 2 * float(np.max(np.abs(w) / scale)))
        expect('wrong-beam', what + ' wavelength' + self.hist(), got.wavelen, lam, 1e-6, 0)

    # places: (live target index, reference place)
    def place(self, rng):
        k = rng.random()
        if k < .12:
            return self.tl(), 0, 'left'
        if k < .24:
            return self.tr(), len(self.lay.pieces), 'right'
        if k < .5 and self.tgts:
            p = rng.choice(self.tgts)
            return self.ms.target_idx(p), self.lay.place(p), p
        p = rng.choice(self.els)
        side = rng.choice(['left', 'right'])
        return self.sys[p].as_target(direction=side), self.lay.place(p, side), p + ' ' + side

    def tl(self):
        from phasor.alm.utils import TargetLeft
        return TargetLeft

    def tr(self):
        from phasor.alm.utils import TargetRight
        return TargetRight

    def zs(self, rng, n, out=.25):
        w = self.lay.width()
        o = []
        for _ in range(40 * n):
            z = round(rng.uniform(-out, w + out), 6) if rng.random() < .5 or w == 0 else round(rng.uniform(0, w), 6)
            if self.lay.clear(z, 1e-6):
                o.append(z)
                if len(o) == n:
                    break
        if len(o) < n:
            return []
        return o

    def ask(self, kind, rng):
        """returns False when there is nothing to ask"""
        lay, ms, sys = self.lay, self.ms, self.sys
        if kind == 'pos':
            # places of all elements, from both sides
            for p in self.els:
                el = sys[p]
                self.num('place of %s' % p, ms.object_z(el), lay.z(lay.place(p)))
                self.num('place of the right of %s' % p, ms.object_z(el, direction='right'), lay.z(lay.place(p, 'right')))
                self.num('width of %s' % p, el.width_m, lay.z(lay.place(p, 'right')) - lay.z(lay.place(p)))
        elif kind == 'width':
            self.num('width', sys.width_m, lay.width())
        elif kind == 'matrix':
            self.mat('matrix', sys.matrix, lay.matrix())
        elif kind == 'inv':
            self.mat('inverse matrix', sys.matrix_inv, beam.inv(lay.matrix()))
        elif kind == 'between':
            if not self.els:
                return False
            t1, a, n1 = self.place(rng)
            t2, b, n2 = self.place(rng)
            if t1 in ((), None) or t2 in ((), None):
                return False
            got = sys.matrix_between(t1, t2) if rng.random() < .5 else ms.mat_target_between(t1, t2)
            self.mat('matrix from %s to %s' % (n1, n2), got, lay.between(a, b))
        elif kind == 'chain':
            if not self.els:
                return False
            (t1, a, n1), (t2, b, n2), (t3, c, n3) = [self.place(rng) for _ in range(3)]
            m12, m23, m13 = [np.asarray(sys.matrix_between(x, y)) for x, y in ((t1, t2), (t2, t3), (t1, t3))]
            self.mat('%s to %s by way of %s' % (n1, n3, n2), m23.dot(m12), m13, self.big)
            self.mat('%s to %s' % (n1, n3), m13, lay.between(a, c))
        elif kind == 'sub':
            # a part asked by itself
            syss = [p for p in self.els if lay.items[p][0]['k'] in ('sys', 'plcx', 'cxcx', 'plcxm')]
            if not syss:
                return False
            p = rng.choice(syss)
            a, b = lay.span[p]
            self.mat('matrix of %s' % p, sys[p].matrix, lay.between(a, b))
            self.mat('inverse matrix of %s' % p, sys[p].matrix_inv, lay.between(b, a))
        elif kind in ('to_z', 'q_z'):
            z = self.zs(rng, 1)
            if not z or not self.els:
                return False
            z = z[0]
            if kind == 'to_z':
                if rng.random() < .5 and self.tgts:
                    p = rng.choice(self.tgts)
                    t, a, n = self.ms.target_idx(p), lay.place(p), p
                    got = ms.mat_target_z(p, z)
                else:
                    t, a, n = (self.tl(), 0, 'left') if rng.random() < .5 else (self.tr(), len(lay.pieces), 'right')
                    got = sys.matrix_target_to_z_single(t, z)
                self.mat('matrix from %s to z=%s' % (n, z), got, lay.to_z(a, z))
            else:
                if not self.lit:
                    return False
                p = rng.choice(self.lit)
                got = ms.q_target_z(z, beam_source=p) if rng.random() < .7 else ms.target_q(z, beam_source=p)
                b = self.beams[p].through(lay.to_z(lay.place(p), z))
                self.cq('beam of %s at z=%s' % (p, z), got, b)
                if b.q.imag > 1e-3:
                    expect('wrong-width', 'width of the beam of %s at z=%s' % (p, z) + self.hist(), got.W, b.W, 1e-5 * self.big, 0)
        elif kind == 'at_z':
            z = self.zs(rng, 1)
            if not z:
                return False
            f = rng.choice([ms.matrix_at, ms.matrix_at_single, sys.matrix_at_single])
            self.mat('matrix at z=%s' % z[0], f(z[0]), lay.to_z(0, z[0]))
        elif kind in ('arr', 'q_arr'):
            zs = self.zs(rng, rng.choice([2, 4, 6]))
            if not zs or not self.els:
                return False
            form = rng.choice(['sorted', 'sorted', 'any', 'grid'])
            zs = np.array(sorted(zs) if form == 'sorted' else zs)
            if form == 'grid':
                zs = zs.reshape(2, -1)
            if kind == 'arr':
                p = rng.choice(self.tgts + [None])
                want = np.array([lay.to_z(0 if p is None else lay.place(p), z) for z in zs.ravel()])
                want = np.moveaxis(want, 0, -1).reshape((2, 2) + zs.shape)
                if p is None:
                    f = ms.matrix_at if form != 'sorted' or rng.random() < .5 else ms.matrix_at_linsorted
                    got = f(zs)
                else:
                    got = ms.mat_target_z(p, zs)
                self.mat('matrices from %s at %s places' % (p or 'left', form), got, want)
            else:
                if not self.lit:
                    return False
                p = rng.choice(self.lit)
                got = ms.q_target_z(zs, beam_source=p)
                want = [self.beams[p].through(lay.to_z(lay.place(p), z)) for z in zs.ravel()]
                v = got.value
                g = (np.asarray(v.real) + 1j * np.asarray(v.imag))
                if g.shape != zs.shape:
                    raise Violation('wrong-shape', 'beam at %r places has shape %r' % (zs.shape, g.shape))
                for gg, b, z in zip(g.ravel(), want, zs.ravel()):
                    s = b.q.imag
                    if s > 1e-4 and abs(b.q) / s < 1e4:
                        expect('wrong-beam', 'beam of %s at z=%s of several' % (p, z) + self.hist(), gg / s, b.q / s, 0, 1e-7 * self.big ** 2 * abs(b.q) / s)
        elif kind == 'q_target':
            if not self.lit:
                return False
            p = rng.choice(self.lit)
            t, b, n = self.place(rng)
            if n in self.tgts and rng.random() < .5:
                t = n
            got = ms.target_q(t, beam_source=p)
            self.cq('beam of %s at %s' % (p, n), got, self.beams[p].through(lay.between(lay.place(p), b)))
        elif kind == 'q_mat':
            if not self.lit:
                return False
            p = rng.choice(self.lit)
            self.cq('beam given by %s' % p, sys[p].beam_q, self.beams[p])
            self.cq('beam given by %s' % p, ms.target_obj(p).beam_q, self.beams[p])
        elif kind == 'overlap':
            if len(self.lit) < 1:
                return False
            p, q = rng.choice(self.lit), rng.choice(self.lit)
            got = ms.overlap(p, q)
            b = self.beams[p].through(lay.between(lay.place(p), lay.place(q)))
            if b.q.imag < 1e-4:
                return False
            expect('wrong-overlap', 'overlap of %s with %s' % (p, q) + self.hist(), abs(got), self.beams[q].overlap(b), 1e-6 * self.big, 1e-9)
        elif kind == 'olist':
            if len(self.tgts) < 2 or len(self.lit) < len(self.tgts) or len(set(lay.z(lay.place(p)) for p in self.tgts)) < len(self.tgts):
                return False
            order = sorted(self.tgts, key=lambda p: lay.z(lay.place(p)))
            want = []
            for p, q in zip(order, order[1:]):
                b = self.beams[p].through(lay.between(lay.place(p), lay.place(q)))
                want.append(self.beams[q].overlap(b) ** 4)
            got = ms.overlap_list()
            expect('wrong-overlap', 'overlaps of neighbours' + self.hist(), np.array(got), np.array(want), 1e-5 * self.big, 1e-9)
            expect('wrong-overlap', 'overlap of the sequence' + self.hist(), ms.overlap_seq(), np.prod(want), 1e-5 * self.big * len(want), 1e-9)
        elif kind == 'gouy':
            if not self.lit:
                return False
            p = rng.choice(self.lit)

            def end():
                if rng.random() < .5:
                    q = rng.choice(self.tgts)
                    return q, lay.between(lay.place(p), lay.place(q)), q
                z = self.zs(rng, 1)
                if not z:
                    return p, beam.I2, p
                return z[0], lay.to_z(lay.place(p), z[0]), 'z=%s' % z[0]
            x, mx, nx = end()
            y, my, ny = end()
            got = ms.relative_gouy_phasor(x, y, beam_source=p)
            b = self.beams[p].through(mx)
            if b.q.imag < 1e-3 or abs(b.q) / b.q.imag > 1e3:
                return False
            want = b.gouy(my.dot(beam.inv(mx)))
            expect('wrong-phase', 'round trip phase of %s from %s to %s' % (p, nx, ny) + self.hist(), complex(got.real, got.imag), want, 0, 1e-6 * self.big ** 3)
        elif kind == 'ztarget':
            if not self.tgts:
                return False
            p = rng.choice(self.tgts)
            self.num('place of target %s' % p, ms.target_z(p), lay.z(lay.place(p)))
        elif kind == 'targets':
            bt = ms.beam_targets
            got = sorted(zip(bt.tname, bt.z))
            if [n for n, z in got] != sorted(self.tgts):
                raise Violation('wrong-targets', 'targets %r, wanted %r%s' % ([n for n, z in got], sorted(self.tgts), self.hist()))
            for n, z in got:
                self.num('place of target %s' % n, z, lay.z(lay.place(n)))
            if list(bt.z) != sorted(bt.z):
                raise Violation('wrong-targets', 'targets out of order %r%s' % (bt.z, self.hist()))
        elif kind in ('lenses', 'mirrors', 'desc'):
            if not self.lit:
                return False
            p = rng.choice(self.lit)
            # a beam source looks at things to its left from their right
            if kind == 'desc':
                got = [(d.str.split()[0], d.z) for d in ms.target_descriptions(beam_source=p)] if all(t in self.lit for t in self.tgts) else None
                if got is None:
                    return False
                if sorted(n for n, z in got) != sorted(self.tgts):
                    raise Violation('wrong-descriptions', 'descriptions of %r, wanted %r%s' % (got, self.tgts, self.hist()))
                for n, z in got:
                    self.num('place of described %s' % n, z, lay.z(lay.place(n)))
                return True
            kinds = {'lenses': ('lens', 'plcx', 'cxcx'), 'mirrors': ('mirror', 'plcxm')}[kind]
            want = []
            for e in self.els:
                it = lay.items[e][0]
                if it['k'] in kinds:
                    a, b = lay.span[e]
                    c = lay.between(a, b)[1, 0]
                    if it['k'] != 'mirror' and it['k'] != 'lens' and abs(c) < 1e-9:
                        # no focal length to tell
                        return False
                    left = lay.place(p) <= a
                    # from where the source sees it
                    want.append((round(lay.z(a if left else b), 6), None if abs(c) < 1e-12 else -1 / c))
            # elements of no width at the same place as the source: either side
            got = [(float(d.z), getattr(d, 'f_m', None)) for d in (ms.lens_descriptions(beam_source=p) if kind == 'lenses' else ms.mirror_descriptions(beam_source=p))]
            if len(got) != len(want):
                raise Violation('wrong-descriptions', '%d %s, wanted %d%s' % (len(got), kind, len(want), self.hist()))
            for g in got:
                ok = [w for w in want if abs(w[0] - g[0]) < 2e-6 and ((w[1] is None) == (g[1] is None)) and (w[1] is None or abs(1 / w[1] - 1 / g[1]) < 1e-8 * (1 + abs(1 / w[1])))]
                if not ok:
                    raise Violation('wrong-descriptions', '%s: %r is none of %r%s' % (kind, g, want, self.hist()))
                want.remove(ok[0])
        elif kind == 'waists':
            if len(self.tgts) != 1 or len(self.lit) != 1:
                return False
            p = self.lit[0]
            B = self.beams[p]
            want = []
            for i in lay.spaces:
                m, L, n = lay.pieces[i]
                z0 = lay.z(i)
                b = B.through(lay.between(lay.place(p), i))
                zw = z0 - b.q.real * n
                if min(abs(zw - z0), abs(zw - z0 - L)) < 1e-7:
                    return False
                if z0 < zw < z0 + L:
                    want.append((zw, b.q.imag))
            got = sorted((float(d.z), float(d.ZR)) for d in ms.waist_descriptions())
            want.sort()
            if len(got) != len(want):
                raise Violation('wrong-waists', 'waists %r, wanted %r%s' % (got, want, self.hist()))
            for g, w in zip(got, want):
                expect('wrong-waists', 'waist' + self.hist(), np.array(g), np.array(w), 1e-6 * self.big, 1e-8 * self.big ** 2)
        elif kind == 'detunes':
            if len(self.tgts) != 1 or len(self.lit) != 1:
                return False
            p = self.lit[0]
            B = self.beams[p]
            want = []
            for e in self.els:
                it = lay.items[e][0]
                if it['k'] in ('lens', 'mirror', 'plcx', 'cxcx', 'plcxm'):
                    a, b = lay.span[e]
                    if lay.place(p) > a:
                        continue
                    q1 = B.through(lay.between(lay.place(p), a))
                    q2 = B.through(lay.between(lay.place(p), b))
                    G = 1
                    s = 1 if it['k'] in ('mirror', 'plcxm') else -1
                    g1 = B.gouy(lay.between(lay.place(p), a)) ** 2
                    g2 = B.gouy(lay.between(lay.place(p), b)) ** 2
                    want.append((lay.z(a), q2.cplg02() * g2 + s * q1.cplg02() * g1))
            got = sorted(((float(d.z), complex(d.cplg02.real, d.cplg02.imag)) for d in ms.detune_descriptions()), key=lambda t: t[0])
            want.sort(key=lambda t: t[0])
            if len(got) != len(want):
                raise Violation('wrong-detunes', '%d detunings %r, wanted %d%s' % (len(got), got, len(want), self.hist()))
            if len(set(round(z, 6) for z, v in want)) < len(want):
                return False
            for g, w in zip(got, want):
                self.num('place of detuning', g[0], w[0])
                if abs(w[1]) < 1e4:
                    expect('wrong-detunes', 'detuning at %s' % w[0] + self.hist(), g[1], w[1], 1e-6 * self.big, 1e-5 * self.big ** 3)
        elif kind == 'excursion':
            if not self.tgts or len(self.lit) < len(self.tgts):
                return False
            zmax = max(lay.z(lay.place(p)) for p in self.tgts)
            last = [p for p in self.tgts if abs(lay.z(lay.place(p)) - zmax) < 1e-9]
            if len(last) > 1:
                return False
            p = last[0]
            els = [rng.choice(self.els) for _ in range(rng.choice([1, 2, 2]))]
            ang = rng.random() < .5
            f = ms.target_excursions_angle if ang else ms.target_excursions_displacement
            got = f([sys[e] for e in els], matrix_output=True)
            V = np.array([lay.between(lay.place(e), lay.place(p))[:, 1 if ang else 0] for e in els]).T
            q = self.beams[p].q
            k = 2 * np.pi / self.beams[p].lam
            S = -k / (4 * q.imag) * np.array([[1, -q.real], [-q.real, abs(q) ** 2]])
            w = V.T.dot(S).dot(V)
            expect('wrong-excursion', 'sensitivity of %s to %r' % (p, els) + self.hist(), np.asarray(got, float), w, 1e-7, 1e-8 * self.big ** 2 * float(np.max(np.abs(w))))
        elif kind == 'spaces':
            # free lengths, the constraints of an optimisation
            got = sorted(float(c[0]) for c in sys.constraints)
            if any(it['k'] in ('plcx', 'cxcx', 'plcxm') for it, rr in lay.items.values()):
                return False
            want = sorted(float(lay.pieces[i][1]) for i in lay.spaces)
            if len(got) != len(want):
                raise Violation('wrong-spaces', 'lengths %r, wanted %r%s' % (got, want, self.hist()))
            self.num('free lengths', np.array(got), np.array(want))
        else:
            raise ValueError(kind)
        return True


def refuses(sys):
    """a system interrupted while it was still being assembled says so whenever it is asked"""
    try:
        sys._complete()
    except RuntimeError as e:
        return 'interrupted' in str(e)
    return False


def run(spec, env):
    hurt = []
    try:
        _run(spec, env, hurt)
    except (Violation, Skip):
        raise
    except Exception:
        if not any(refuses(h) for h in hurt):
            raise
        env.count('refused')


def _run(spec, env, hurt):
    from phasor import alm
    items = dict(paths(spec['items']))
    log = []

    def hist():
        return ' [after ' + ', '.join(log[-14:]) + ']'
    kw = dict(env_substrate=subs()[spec['env']], env_wavelength_nm=spec['wl'])
    if spec['rev']:
        kw['reversed'] = True
    sys = alm.RootSystem(**kw)
    st = State(spec)
    old = []
    nq = 0
    for op in spec['ops']:
        if op[0] == 'ins':
            path, it = op[1], items[op[1]]
            par, name = path.rsplit('.', 1) if '.' in path else (None, path)
            P = sys if par is None else sys[par] if not par.endswith('.q_system') else sys[par[:-len('.q_system')]].q_system
            if op[2]:
                P.insert(construct(it), name)
            else:
                setattr(P.own, name, construct(it))
            st.there.add(path)
            log.append('insert ' + path)
            env.count('insert')
        elif op[0] == 'regen':
            old.append((sys, st))
            sys, st = sys.regenerate(), st.copy()
            log.append('regenerate')
            env.count('regenerate')
        elif op[0] == 'rep':
            src = items[op[1]]
            if op[1] not in st.there or src['k'] != 'sys':
                continue
            full = [i for i in st.items() if i['n'] == op[1]][0]
            new = copy.deepcopy(full)
            new['n'] = op[2]
            lay = st.layout()
            end = max(i['loc'] + lay._width(i) for i in st.items())
            u = beam.UNIT[new['unit']]
            new['loc'] = round((end + op[3]) / u, 6) * u
            if op[4]:
                new['rev'] = not new.get('rev')
            sys.insert(sys[op[1]].replica_generate(**{'loc_' + new['unit']: round(new['loc'] / u, 6), 'reversed': bool(new.get('rev'))}), op[2])
            st.extra.append(new)
            log.append('replica %s of %s' % (op[2], op[1]))
            env.count('replica')
        else:
            cut = op[3] if len(op) > 3 else None
            who, ws = sys, st
            if old and op[2] % 5 == 0:
                who, ws = old[op[2] // 5 % len(old)]
            if not ws.there:
                continue
            a = Asker(env, ws, who, hist)
            if a.lay.empty:
                continue
            if cut is not None:
                try:
                    with Points(cut[1], cut[0]) as p:
                        a.ask(op[1], random.Random(op[2]))
                except INJECTED as e:
                    env.fault(cut[0])
                    env.log.append('%s at %s in %s' % (cut[0], p.where, op[1]))
                    log.append('%s in %s' % (cut[0], op[1]))
                    hurt.append(who)
            done = Asker(env, ws, who, hist).ask(op[1], random.Random(op[2]))
            if done is not False:
                nq += 1
                env.count('query_' + op[1])
                log.append('ask ' + op[1])
                env.simsteps += 1
    if nq < 3:
        env.count('few')
