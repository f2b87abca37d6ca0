"""C09: registered sparse solvers on random from/to maps under every elimination tie-break, against dense algebra."""
from collections import defaultdict

import numpy as np

from ..core import Skip, Violation, close, show
from .. import seam

ID = 'C09'
LEVEL = 'exploration'
QUICK = 25000
THOROUGH = 300000
BATCH = 100
RULE = ('a seeded sparse system (1-14 nodes, several blocks, scalar/array entries, zero pivots for the pivoting solvers), seeded subset of '
        'inputs and outputs, one registered solver, node storage, visit and tie-break order decided by the seed; non-trivial: at least one '
        'order decision differed from insertion order or the elimination had more than one node')
REAL = ['phasor.matrix (all registered solvers, purge, SRE algebra)', 'numpy', 'scipy.sparse']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['systems with condition number below 1e6; loop_fast_unstable only claimed where every leading loop is well away from unity '
               '(row sums of |M| below 0.7)', 'reference: numpy dense solve']


def gen(rng, tier):
    if rng.random() < .12:
        return gen_algebra(rng)
    solver = rng.choice(['loop_LUQ', 'loop_LUQ', 'loop_LUQ', 'loop_fast_unstable', 'scisparse', 'scisparse_superLU'])
    scat = True if solver == 'loop_fast_unstable' else rng.random() < .6
    n = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    nb = rng.choice([1, 1, 2, 3])
    L = rng.choice([0, 0, 1, 3])
    dominant = solver == 'loop_fast_unstable' or rng.random() < .3
    dens = rng.choice([.15, .3, .5, .9])
    edges = []
    block = [rng.randrange(nb) for _ in range(n)]

    vals = rng.choice([0, 0, 0, 1, 2])

    def val():
        def one():
            if vals == 1:
                return [float(rng.choice([-2, -1, 1, 2])), 0.]
            if vals == 2:
                # wildly different scales
                s = 10 ** rng.uniform(-3, 3)
                return [round(rng.gauss(0, 1), 3) * s, round(rng.gauss(0, 1), 3) * s]
            return [round(rng.gauss(0, 1), 3), rng.choice([0., round(rng.gauss(0, 1), 3)])]
        if L and rng.random() < .6:
            out = [one() for _ in range(L)]
            if rng.random() < .2:
                out[rng.randrange(L)] = [0., 0.]
            return out
        return one()
    for i in range(n):
        for j in range(n):
            if i == j:
                if rng.random() < (.5 if scat else .6):
                    edges.append([i, j, val()])
            elif block[i] == block[j] and rng.random() < dens:
                edges.append([i, j, val()])
            elif rng.random() < .03:
                edges.append([i, j, val()])
    if not scat and rng.random() < .6:
        # make it likely nonsingular: a random permutation pattern of large entries
        perm = list(range(n))
        if rng.random() < .5:
            rng.shuffle(perm)
        have = {(e[0], e[1]): e for e in edges}
        for i, j in enumerate(perm):
            if (i, j) in have:
                have[i, j][2] = [5., 1.]
            else:
                edges.append([i, j, [5., 1.]])
    rng.shuffle(edges)
    ins = sorted(rng.sample(range(n), rng.randint(1, n)))
    outs = sorted(rng.sample(range(n), rng.randint(1, n)))
    imap = None
    if rng.random() < .4:
        imap = [[i, val()] for i in sorted(rng.sample(range(n), rng.randint(1, n)))]
        if rng.random() < .3:
            ins = []
    lbl = rng.choice(['key', 'key', 'int', 'str'])
    if solver.startswith('sci') and imap is not None and ins:
        lbl = 'key'
    return dict(k='solve', solver=solver, scat=scat, neg=rng.random() < .2, n=n, L=L, edges=edges, ins=ins, outs=outs, imap=imap,
                dominant=dominant, labels=lbl, lab=rng.getrandbits(30),
                pi=solver != 'loop_LUQ' or rng.random() < .8, po=solver != 'loop_LUQ' or rng.random() < .8, zero=rng.random() < .2, copy=rng.random() < .5)


def gen_algebra(rng):
    n = rng.choice([1, 2, 3, 5, 7])

    def mat():
        return [[i, j, [round(rng.gauss(0, 1), 3), round(rng.gauss(0, 1), 3)]] for i in range(n) for j in range(n) if rng.random() < .4]
    return dict(k='algebra', n=n, a=mat(), b=mat(), labels=rng.choice(['key', 'int', 'str']), lab=rng.getrandbits(30))


def labels(spec):
    import random
    r = random.Random(spec['lab'])
    n = spec['n']
    if spec['labels'] == 'int':
        xs = r.sample(range(1000), n)
    elif spec['labels'] == 'str':
        xs = ['n%03d' % i for i in r.sample(range(1000), n)]
    else:
        from phasor.base import DictKey
        from phasor.optics import ports
        xs = [(DictKey({ports.ElementKey: 'E%d' % (i // 3), ports.PortKey: 'p%d' % (i % 3)}),
               DictKey({ports.ClassicalFreqKey: 'f%d' % (i % 2)})) for i in r.sample(range(300), n)]
    return xs


def arr(v):
    a = np.array(v, dtype=float)
    return a[..., 0] + 1j * a[..., 1]


def dense(spec, edges, L):
    n = spec['n']
    sh = (max(L, 1), n, n)
    M = np.zeros(sh, dtype=complex)
    for i, j, v in edges:
        M[:, j, i] += arr(v)
    return M


def sre(edges, xs, scale=1.):
    SimSet = seam.SimSet
    seq, req, em = defaultdict(SimSet), defaultdict(SimSet), dict()
    for i, j, v in edges:
        a = arr(v) * scale
        if a.ndim == 0:
            a = complex(a)
        seq[xs[i]].add(xs[j])
        req[xs[j]].add(xs[i])
        em[xs[i], xs[j]] = a
    for x in xs:
        seq[x], req[x]
    return seq, req, em


def run(spec, env):
    if spec['k'] == 'algebra':
        return run_algebra(spec, env)
    from phasor.matrix import solvers_registry
    n, L = spec['n'], spec['L']
    xs = labels(spec)
    M = dense(spec, spec['edges'], L)
    scale = 1.
    if spec['dominant'] and spec['scat']:
        s = np.max(np.abs(M).sum(axis=2))
        s2 = np.max(np.abs(M).sum(axis=1))
        s = max(s, s2)
        if s > 0.7:
            scale = 0.7 / s
    M = M * scale
    A = np.eye(n)[None] - M if spec['scat'] else M
    c = max(np.linalg.cond(a) for a in A)
    if not np.isfinite(c) or c > 1e6:
        raise Skip('ill-conditioned')
    inv = np.linalg.inv(A)
    if spec['neg']:
        inv = -inv
    seq, req, em = sre(spec['edges'], xs, scale)
    if spec['zero']:
        # explicit zero entries are allowed
        import random
        r = random.Random(spec['lab'] + 1)
        for _ in range(3):
            i, j = r.randrange(n), r.randrange(n)
            if (xs[i], xs[j]) not in em:
                em[xs[i], xs[j]] = 0.
                seq[xs[i]].add(xs[j])
                req[xs[j]].add(xs[i])
    orig = None
    if spec['copy']:
        from phasor.matrix.SRE_matrix_algorithms import copy_sre
        orig = (seq, req, em)
        snap = ({k: sorted(map(repr, v)) for k, v in seq.items()}, {k: sorted(map(repr, v)) for k, v in req.items()},
                {k: np.array(v) for k, v in em.items()})
        seq, req, em = copy_sre(orig)
    solver = solvers_registry.solvers_all[spec['solver']]()
    kw = {}
    if spec['imap'] is not None:
        kw['inputs_map'] = {xs[i]: (complex(arr(v)) if arr(v).ndim == 0 else arr(v)) for i, v in spec['imap']}
    imap0 = {k: np.array(v) for k, v in kw.get('inputs_map', {}).items()}
    ins = seam.SimSet([xs[i] for i in spec['ins']])
    outs = seam.SimSet([xs[i] for i in spec['outs']])
    res = solver.inverse_solve_inplace(seq=seq, req=req, edge_map=em, inputs_set=ins, outputs_set=outs,
                                       purge_in=spec['pi'], purge_out=spec['po'],
                                       negative=spec['neg'], scattering=spec['scat'], **kw)
    # elimination of a system of this size and condition: far tighter than any real mistake, looser than rounding
    mag = np.max(np.abs(inv))
    tol = 1e-11 * c * mag + 1e-13
    for i in spec['ins']:
        for o in spec['outs']:
            got = res.edge_map.get((xs[i], xs[o]), 0)
            want = inv[:, o, i] if L else inv[0, o, i]
            if not close(got, want, 1e-7, tol):
                raise Violation('wrong-solution', '%s from %d to %d: got %s, expected %s (cond %.3g)' % (
                    spec['solver'], i, o, show(got), show(want), c))
            has = (xs[i], xs[o]) in res.edge_map
            if has != (xs[o] in res.seq.get(xs[i], ())) or has != (xs[i] in res.req.get(xs[o], ())):
                raise Violation('inventory', 'seq/req/edge_map of the result disagree for %d -> %d' % (i, o))
    if spec['imap'] is not None:
        b = np.zeros((max(L, 1), n), dtype=complex)
        for i, v in spec['imap']:
            b[:, i] += arr(v)
        x = np.einsum('lij,lj->li', inv, b)
        for o in spec['outs']:
            got = res.outputs_map.get(xs[o], 0)
            want = x[:, o] if L else x[0, o]
            if not close(got, want, 1e-7, tol * max(1, np.max(np.abs(b)))):
                raise Violation('wrong-solution', '%s sourced output %d: got %s, expected %s (cond %.3g)' % (
                    spec['solver'], o, show(got), show(want), c))
        for k, v in kw['inputs_map'].items():
            if not np.array_equal(imap0[k], v):
                raise Violation('inputs-changed', 'the caller\'s input vector was modified')
    if orig is not None:
        seq, req, em = orig
        now = ({k: sorted(map(repr, v)) for k, v in seq.items()}, {k: sorted(map(repr, v)) for k, v in req.items()})
        if now[0] != snap[0] or now[1] != snap[1] or set(em) != set(snap[2]) or any(not np.array_equal(em[k], snap[2][k]) for k in em):
            raise Violation('copy-not-independent', 'solving a copied system changed the original')
    env.count('solver_' + spec['solver'] + ('_scatter' if spec['scat'] else ''))
    env.simsteps += n


def run_algebra(spec, env):
    from phasor.matrix import SRE_matrix_algorithms as S
    xs = labels(spec)
    n = spec['n']
    A, B = sre(spec['a'], xs), sre(spec['b'], xs)
    dA, dB = dense(spec, spec['a'], 0)[0], dense(spec, spec['b'], 0)[0]
    seq, req, em = S.matrix_mult_sre(A, B)
    P = dB @ dA

    def chk(what, em, seq, req, D):
        for i in range(n):
            for j in range(n):
                k = (xs[i], xs[j])
                if not close(em.get(k, 0), D[j, i], 1e-9, 1e-12):
                    raise Violation('algebra-' + what, 'entry %d -> %d: got %s, expected %s' % (i, j, show(em.get(k, 0)), show(D[j, i])))
                if (k in em) != (xs[j] in seq.get(xs[i], ())) or (k in em) != (xs[i] in req.get(xs[j], ())):
                    raise Violation('algebra-' + what, 'adjacency disagrees with entries at %d -> %d' % (i, j))
    chk('mult', em, seq, req, P)
    s2, r2, e2 = S.adjoint_sre(A)
    chk('adjoint', e2, s2, r2, dA.conj().T)
    chk('operand', A[2], A[0], A[1], dA)
    s = S.SRE_count_sparsity(A)
    if s.Nedges != len(spec['a']) or s.Nnodes != n:
        raise Violation('algebra-sparsity', repr(s))
    env.count('algebra')


def shrink(spec):
    if spec['k'] == 'algebra':
        for q in 'ab':
            for i in range(len(spec[q])):
                yield dict(spec, **{q: spec[q][:i] + spec[q][i + 1:]})
        return
    es = spec['edges']
    for i in range(len(es)):
        yield dict(spec, edges=es[:i] + es[i + 1:])
    for q in ('ins', 'outs', 'imap'):
        v = spec[q] or []
        for i in range(len(v)):
            if len(v) > 1:
                yield dict(spec, **{q: v[:i] + v[i + 1:]})
    used = set(e[0] for e in es) | set(e[1] for e in es) | set(spec['ins']) | set(spec['outs']) | set(i for i, _ in spec['imap'] or [])
    for d in range(spec['n']):
        if spec['n'] > 1 and (d not in used):
            m = lambda i: i - 1 if i > d else i
            yield dict(spec, n=spec['n'] - 1, edges=[[m(a), m(b), v] for a, b, v in es], ins=[m(i) for i in spec['ins']],
                       outs=[m(i) for i in spec['outs']], imap=None if spec['imap'] is None else [[m(i), v] for i, v in spec['imap']])
    if spec['L']:
        for i, e in enumerate(es):
            if isinstance(e[2][0], list):
                yield dict(spec, edges=es[:i] + [[e[0], e[1], e[2][0]]] + es[i + 1:])
    for k, v in (('copy', False), ('zero', False), ('neg', False), ('labels', 'int')):
        if spec[k] != v:
            yield dict(spec, **{k: v})
    for i, e in enumerate(es):
        if not isinstance(e[2][0], list) and e[2] != [1., 0.]:
            yield dict(spec, edges=es[:i] + [[e[0], e[1], [1., 0.]]] + es[i + 1:])
