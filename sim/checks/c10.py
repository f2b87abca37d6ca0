"""C10: elimination ordered by the external partitioner, under process and file-system faults, against dense algebra."""
import os
import tempfile

import numpy as np

from ..core import Skip, Violation, close, show
from .. import osim, seam
from . import c09

ID = 'C10'
LEVEL = 'exploration'
QUICK = 16000
THOROUGH = 400000
BATCH = 100
RULE = ('a seeded sparse system solved with its order delegated to a simulated partitioner process; seeded permutation, fault plan '
        '(process start, exit, kill, interrupt, damaged result file, disk quota, failing open/read/write/close/dup/unlink at a seeded call) '
        'and set orders; non-trivial: at least one injected fault fired or one order decision was perturbed')
REAL = ['phasor.matrix.metis_reorder', 'phasor.matrix.DAG_algorithm', 'tempfile', 'subprocess front end (check_output/run)',
        'a real scratch directory and descriptor table']
STUB = ['subprocess.Popen (simulated ndmetis)', 'io.open/os.open/os.dup/os.unlink (fault-injecting)', 'set iteration order']
ASSUMPTIONS = ['systems with condition number below 1e6', 'a file whose unlink is itself made to fail may stay behind',
               'a caller-named graph file is the caller\'s to delete']

OUTS = ['missing', 'empty', 'short', 'torn', 'dup', 'garbage', 'range', 'extra', 'blank', 'one-based']


def proc(rng, p):
    d = dict(perm=rng.choice(['random', 'random', 'identity', 'reverse']))
    if rng.random() > p:
        return d
    k = rng.choice(['start', 'start', 'rc', 'kill', 'out', 'out', 'out', 'wait'])
    if k == 'start':
        d['start'] = rng.choice(['ENOENT', 'ENOENT', 'EACCES', 'ENOMEM', 'EMFILE'])
    elif k == 'rc':
        d['rc'] = rng.choice([1, 2, 127])
        d['out'] = rng.choice(['ok', 'missing', 'missing', 'short', 'empty'])
    elif k == 'kill':
        d['rc'] = rng.choice([-9, -11, -15])
        d['out'] = rng.choice(['missing', 'torn', 'empty', 'short'])
    elif k == 'out':
        d['out'] = rng.choice(OUTS)
    else:
        d['wait'] = 'KeyboardInterrupt'
        d['ran'] = rng.random() < .5
        d['out'] = rng.choice(['ok', 'torn'])
    d['cut'] = round(rng.random(), 3)
    return d


def gen(rng, tier):
    while True:
        s = c09.gen(rng, tier)
        if s['k'] == 'solve':
            break
    s['solver'] = 'loop_LUQ'
    s['pi'] = s['po'] = True
    s['copy'] = False
    mode = rng.choice(['none', 'proc', 'proc', 'file', 'file', 'both'])
    plan = dict(procs=[proc(rng, .8 if mode in ('proc', 'both') else 0) for _ in range(rng.choice([1, 2]))], faults=[])
    if mode in ('file', 'both'):
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(['quota', 'open', 'open', 'read', 'write', 'close', 'dup', 'unlink'])
            if op == 'quota':
                plan['quota'] = rng.choice([0, 5, 20, 60, 150])
                plan['bufsize'] = rng.choice([1, 64, 8192])
            else:
                err = dict(open=['EMFILE', 'EACCES', 'ENOSPC', 'ENOENT'], read=['EIO', 'MemoryError', 'KeyboardInterrupt'],
                           write=['ENOSPC', 'EIO', 'MemoryError', 'KeyboardInterrupt'], close=['ENOSPC', 'EIO'], dup=['EMFILE'],
                           unlink=['EACCES', 'EIO'])[op]
                plan['faults'].append(dict(op=op, n=rng.choice([0, 0, 1, 2, 3, 7]), err=rng.choice(err)))
    s['plan'] = plan
    s['fname'] = rng.choice(['temp', 'temp', 'named'])
    s['calls'] = rng.choice([1, 1, 1, 2, 3])
    s['direct'] = rng.random() < .2
    return s


def faulty(plan):
    return bool(plan.get('faults')) or plan.get('quota') is not None or any(
        set(p) - {'perm', 'cut'} for p in plan['procs'])


def run(spec, env):
    from phasor.matrix import DAG_algorithm
    from phasor.matrix import metis_reorder
    n, L = spec['n'], spec['L']
    xs = c09.labels(spec)
    M = c09.dense(spec, spec['edges'], L)
    A = np.eye(n)[None] - M if spec['scat'] else M
    c = max(np.linalg.cond(a) for a in A)
    if not np.isfinite(c) or c > 1e6:
        raise Skip('ill-conditioned')
    inv = np.linalg.inv(A)
    if spec['neg']:
        inv = -inv
    tol = 1e-11 * c * np.max(np.abs(inv)) + 1e-13
    plan = spec['plan']
    with osim.Sim(plan, env, env.rng('os')) as sim:
        fname = tempfile if spec['fname'] == 'temp' else os.path.join(sim.dir, 'graph.metis')
        for call in range(spec['calls']):
            seq, req, em = c09.sre(spec['edges'], xs)
            kw = {}
            if spec['imap'] is not None:
                kw['inputs_map'] = {xs[i]: (complex(c09.arr(v)) if c09.arr(v).ndim == 0 else c09.arr(v)) for i, v in spec['imap']}
            before = len(sim.hits)
            err = None
            res = None
            try:
                if spec['direct']:
                    order = metis_reorder.METIS_reorder(SRABE=(seq, req, {}, {}, em), METIS_fname=fname)
                else:
                    res = DAG_algorithm.inverse_solve_inplace(
                        seq=seq, req=req, edge_map=em, inputs_set=seam.SimSet([xs[i] for i in spec['ins']]),
                        outputs_set=seam.SimSet([xs[i] for i in spec['outs']]), purge_in=spec['pi'], purge_out=spec['po'],
                        negative=spec['neg'], scattering=spec['scat'], METIS_fname=fname, **kw)
            except (Exception, osim.Interrupt) as e:
                err = '%s: %s' % (type(e).__name__, e)
                if sim.hits[before:] == [] and not any(g for g in sim.graphs):
                    raise
                if sim.hits[before:] == [] and not isinstance(e, OSError) and spec['direct']:
                    raise
            if err is None:
                env.count('calls_solved')
            else:
                env.count('calls_raised')
                env.log.append(err)
            if err is None and spec['direct']:
                if order is not None and sorted(map(repr, order)) != sorted(repr(x) for x in seq):
                    raise Violation('bad-order', 'the returned order %r is not a permutation of the nodes' % (order,))
            elif err is None:
                verify(spec, env, xs, inv, tol, res, L, n)
            bad = [g for g in sim.graphs if g]
            if bad and not sim.hits:
                raise Violation('bad-graph-file', 'the partitioner cannot read the graph file it is given: ' + bad[0])
        files, desc = sim.leaks()
        if spec['fname'] == 'named':
            files = [f for f in files if f != 'graph.metis']
        if files:
            raise Violation('leak-file', 'left behind after %s: %r' % (sim.hits, files))
        if desc:
            raise Violation('leak-descriptor', 'open descriptors after %s: %r' % (sim.hits, desc))
        env.count('process_starts', sim.starts)
    env.simsteps += n


def verify(spec, env, xs, inv, tol, res, L, n):
    for i in spec['ins']:
        for o in spec['outs']:
            got = res.edge_map.get((xs[i], xs[o]), 0)
            want = inv[:, o, i] if L else inv[0, o, i]
            if not close(got, want, 1e-7, tol):
                raise Violation('wrong-solution', 'from %d to %d: got %s, expected %s' % (i, o, show(got), show(want)))
    if spec['imap'] is not None:
        b = np.zeros((max(L, 1), n), dtype=complex)
        for i, v in spec['imap']:
            b[:, i] += c09.arr(v)
        x = np.einsum('lij,lj->li', inv, b)
        for o in spec['outs']:
            got = res.outputs_map.get(xs[o], 0)
            want = x[:, o] if L else x[0, o]
            if not close(got, want, 1e-7, tol * max(1, np.max(np.abs(b)))):
                raise Violation('wrong-solution', 'sourced output %d: got %s, expected %s' % (o, show(got), show(want)))


def shrink(spec):
    for s in c09.shrink(spec):
        yield s
    plan = spec['plan']
    for i in range(len(plan['faults'])):
        yield dict(spec, plan=dict(plan, faults=plan['faults'][:i] + plan['faults'][i + 1:]))
    if plan.get('quota') is not None:
        yield dict(spec, plan={k: v for k, v in plan.items() if k != 'quota'})
    for i, p in enumerate(plan['procs']):
        if len(plan['procs']) > 1:
            yield dict(spec, plan=dict(plan, procs=plan['procs'][:i] + plan['procs'][i + 1:]))
        for k in list(p):
            yield dict(spec, plan=dict(plan, procs=plan['procs'][:i] + [{a: b for a, b in p.items() if a != k}] + plan['procs'][i + 1:]))
    if spec['calls'] > 1:
        yield dict(spec, calls=spec['calls'] - 1)


def prepare():
    import gc
    from phasor.matrix import DAG_algorithm, metis_reorder     # noqa: F401
    gc.collect()
    gc.freeze()
