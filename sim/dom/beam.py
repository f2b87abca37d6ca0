"""Beam lines: a reference for the ray matrices, positions, beam parameters and overlaps of a layout.

A layout is a tree. The reference knows nothing of how the package assembles it: every element is an interval on the line
(mirrored when reversed), the gaps between are free space, and everything asked is a product of ideal element matrices.
"""
import math

import numpy as np

SUB = {
    'nitrogen': {1064: 1.0002952, 532: 1.0002994},
    'vacuum': {1064: 1., 532: 1.},
    'fused_silica': {1064: 1.4496, 532: 1.4607},
    'BK7': {1064: 1.5066, 532: 1.5195},
    'PPKTP': {1064: 1.8302, 532: 1.7779},
}
UNIT = {'m': 1., 'mm': 1e-3, 'cm': 1e-2, 'in': .0254}


def M(a, b, c, d):
    return np.array([[a, b], [c, d]], float)


I2 = M(1, 0, 0, 1)


def inv(m):
    a, b, c, d = m.ravel()
    return M(d, -b, -c, a) / (a * d - b * c)


class Part(object):
    """an element laid on the line: its primitive pieces, [(matrix, width, index)], and its places"""
    def __init__(self, path, item, pieces, marks=()):
        self.path, self.item, self.pieces = path, item, pieces
        self.marks = list(marks)

    @property
    def width(self):
        return sum(w for m, w, n in self.pieces)


class Layout(object):
    def __init__(self, spec, items):
        self.spec = spec
        self.wl = spec['wl']
        self.n_env = SUB[spec['env']][self.wl]
        self.rev = bool(spec['rev'])
        # the primitive pieces from left to right and, for every path, (index of first piece, one past its last)
        self.pieces = []
        self.span = {}
        self.spaces = []
        self._lay('', items, self.rev)
        self.pos = np.concatenate([[0.], np.cumsum([p[1] for p in self.pieces])]) if self.pieces else np.array([0.])

    def width(self):
        return float(self.pos[-1])

    # widths of the elements do not depend on direction
    def _width(self, it):
        k = it['k']
        if k in ('plcx', 'cxcx'):
            return it['L']
        if k == 'plcxm':
            return 2 * it['L']
        if k == 'space':
            return it['L']
        if k == 'sys':
            seen = self._seen(it)
            if not seen:
                return 0.
            lo = min(i['loc'] for i in seen) if it.get('bl') is None else it['bl']
            hi = max(i['loc'] + self._width(i) for i in seen) if it.get('br') is None else it['br']
            return hi - lo
        return 0.

    def _seen(self, it):
        """the elements of a system within its boundaries"""
        bl, br = it.get('bl'), it.get('br')
        return [i for i in it['items'] if (bl is None or i['loc'] >= bl) and (br is None or i['loc'] <= br)]

    def _lay(self, prefix, items, rev, bl=None, br=None):
        at = []
        for n, it in enumerate(items):
            w = self._width(it)
            lo = it['loc']
            # equal places: what has no width stands before what has
            at.append((lo, w, n, it))
        at.sort(key=lambda t: t[:3])
        if rev:
            at = [(-lo - w, w, n, it) for lo, w, n, it in reversed(at)]
            bl, br = (None if br is None else -br), (None if bl is None else -bl)
        end = bl
        for lo, w, n, it in at:
            if end is not None:
                self._space(lo - end, 'gap')
            path = prefix + it['n']
            first = len(self.pieces)
            self._put(path, it, rev)
            self.span[path] = first, len(self.pieces)
            end = lo + w
        if br is not None and at:
            self._space(br - end, 'gap')

    def _space(self, L, kind, n=None):
        n = self.n_env if n is None else n
        self.pieces.append((M(1, L / n, 0, 1), L, n))
        if kind == 'gap':
            self.spaces.append(len(self.pieces) - 1)

    def _thin(self, m):
        self.pieces.append((m, 0., self.n_env))

    def _face(self, n1, n2, R):
        """refraction from index n1 into n2 seen from the left; R > 0 when the centre lies to the right"""
        self._thin(M(1, 0, 0 if R is None else (n1 - n2) / R, 1))

    def _put(self, path, it, rev):
        k = it['k']
        ne = self.n_env
        if k != 'sys':
            rev = rev ^ bool(it.get('rev'))
        if k in ('target', 'nop', 'projected'):
            self._thin(I2)
        elif k == 'lens':
            self._thin(M(1, 0, -1. / it['f'], 1))
        elif k == 'mirror':
            self._thin(M(1, 0, 0 if it['R'] is None else -2. / it['R'], 1))
        elif k == 'abcd':
            a, b, c = it['A'], it['B'], it['C']
            d = (b * c + 1) / a
            self._thin(M(d, b, c, a) if rev else M(a, b, c, d))
        elif k == 'space':
            self._space(it['L'], 'own', SUB[it['sub']][self.wl] if it.get('sub') else None)
            self.spaces.append(len(self.pieces) - 1)
        elif k in ('plcx', 'cxcx', 'plcxm'):
            ns = SUB[it['sub']][self.wl] if it.get('sub') else SUB['fused_silica'][self.wl]
            if k == 'plcx':
                r1, r2 = it['R'], None
            elif k == 'cxcx':
                r1, r2 = it['R1'], -it['R2']
            else:
                r1 = r2 = None
            if rev:
                r1, r2 = (None if r2 is None else -r2), (None if r1 is None else -r1)
            self._face(ne, ns, r1)
            self._space(it['L'], 'in', ns)
            if k == 'plcxm':
                # the curved surface within the substrate
                self._thin(M(1, 0, 0 if it['R'] is None else -2. * ns / ne / it['R'], 1))
                self._space(it['L'], 'in', ns)
            self._face(ns, ne, r2)
        elif k == 'sys':
            self._lay(path + '.', self._seen(it), rev ^ bool(it['rev']), it.get('bl'), it.get('br'))
        else:
            raise ValueError(k)

    # places are indices between pieces, plus a distance into the following one
    def place(self, path, side='left'):
        a, b = self.span[path]
        return a if side == 'left' else b

    def z(self, place):
        return float(self.pos[place])

    def upto(self, i):
        m = I2
        for p in self.pieces[:i]:
            m = p[0].dot(m)
        return m

    def between(self, i, j):
        if j < i:
            return inv(self.between(j, i))
        m = I2
        for p in self.pieces[i:j]:
            m = p[0].dot(m)
        return m

    def clear(self, z, tol=1e-9):
        """z is in the interior of a piece or outside the layout, so that what stands before it is not in question"""
        return bool(np.all(np.abs(self.pos - z) > tol))

    def to_z(self, i, z):
        """from place i to the position z"""
        if z <= self.pos[0]:
            return M(1, z / self.n_env, 0, 1).dot(self.between(i, 0))
        if z >= self.pos[-1]:
            return M(1, (z - self.pos[-1]) / self.n_env, 0, 1).dot(self.between(i, len(self.pieces)))
        j = int(np.searchsorted(self.pos, z, side='right')) - 1
        return M(1, (z - self.pos[j]) / self.pieces[j][2], 0, 1).dot(self.between(i, j))

    def matrix(self):
        return self.between(0, len(self.pieces))


class Beam(object):
    def __init__(self, q, lam):
        self.q, self.lam = complex(q), lam

    def through(self, m):
        a, b, c, d = np.asarray(m, float).ravel()
        return Beam((a * self.q + b) / (c * self.q + d), self.lam)

    @property
    def W(self):
        return math.sqrt(self.lam * abs(self.q) ** 2 / (math.pi * self.q.imag))

    def overlap(self, other):
        """magnitude of the overlap of the fundamental modes, both dimensions"""
        return 2 * math.sqrt(self.q.imag * other.q.imag) / abs(self.q.conjugate() - other.q)

    def gouy(self, m):
        a, b, c, d = np.asarray(m, float).ravel()
        p = (a + b / self.q).conjugate()
        return p / abs(p)

    def cplg02(self):
        return (self.q / self.q.conjugate()) / self.q.imag


def eigen(m):
    a, b, c, d = np.asarray(m, float).ravel()
    disc = (d - a) ** 2 + 4 * b * c
    if c == 0 or disc >= 0:
        return None
    return complex((a - d) / (2 * c), math.sqrt(-disc) / (2 * abs(c)))
