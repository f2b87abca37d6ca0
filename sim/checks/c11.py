"""C11: priority queues, sequential histories and every-line thread interleavings, against a sorted multiset."""
from .. import threads
from ..core import Violation

ID = 'C11'
LEVEL = 'exploration'
QUICK = 80000
THOROUGH = 1500000
BATCH = 250
RULE = ('a seeded history of operations on one queue: single caller (plain queue) or 2-4 caller threads (thread-safe queue) preempted '
        'at seeded source lines, bytecodes and inside element comparisons; non-trivial: at least 3 operations and, for threads, at least '
        'one preemption')
REAL = ['phasor.utilities.priority_queue', 'heapq (C)', 'CPython threads for stacks']
STUB = ['threading.Lock/RLock/Condition/Semaphore and thread scheduling: baton scheduler']
ASSUMPTIONS = ['preemption granularity: Python source lines and bytecodes of phasor, and element comparisons written in Python',
               'elements have a consistent total preorder and do not raise from comparisons']
TECHNIQUE = 'deterministic simulation: seeded thread interleavings, linearizability against a sorted-multiset model'


class E(object):
    __slots__ = ('p', 'u')

    def __init__(self, p, u):
        self.p, self.u = p, u

    def __lt__(self, o):
        b = threads.active()
        if b is not None:
            b.point()
        return self.p < o.p

    def __gt__(self, o):
        return o < self

    def __le__(self, o):
        return not (o < self)

    def __ge__(self, o):
        return not (self < o)

    def __repr__(self):
        return '%s#%s' % (self.p, self.u)


def gen(rng, tier):
    safe = rng.random() < .7
    nth = rng.choice([2, 2, 3, 4]) if safe and rng.random() < .9 else 1
    uid = [0]
    span = rng.choice([2, 4, 10, 1000])

    def item():
        uid[0] += 1
        return [rng.randrange(span), uid[0]]
    w = [rng.choice([1, 3, 5]), rng.choice([1, 3, 5]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2]), rng.choice([0, 0, 1])]
    kinds = ['push', 'pop', 'pushpop', 'replace', 'peek', 'is_empty']
    init = [item() for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 8]))]
    total = 11 if nth > 1 else 40
    ths = []
    for i in range(nth):
        n = rng.randint(1, max(1, total // nth))
        ops = []
        for _ in range(n):
            k = rng.choices(kinds, w)[0]
            ops.append([k] + ([item()] if k in ('push', 'pushpop', 'replace') else []))
        ths.append(ops)
    return dict(safe=safe, init=init, threads=ths, elem=rng.choice(['py', 'py', 'tuple']), p=rng.choice([50, 150, 400, 1000]),
                opcodes=rng.random() < .3, how=rng.choice(['list', 'iter', 'tuple']))


def call(q, op, Empty, mk):
    k = op[0]
    try:
        if k == 'push':
            q.push(mk(op[1]))
            return ['ok']
        if k == 'pop':
            return ['v', q.pop()]
        if k == 'pushpop':
            return ['v', q.pushpop(mk(op[1]))]
        if k == 'replace':
            return ['v', q.replace(mk(op[1]))]
        if k == 'peek':
            return ['v', q.peek()]
        return ['b', bool(q.is_empty())]
    except Empty:
        return ['empty']
    except IndexError:
        return ['index']


def key(x):
    return (x.p, x.u) if isinstance(x, E) else tuple(x)


def step(state, op, res, ties):
    """state: frozenset of (prio, uid). -> new state or None when res is not allowed here"""
    k = op[0]

    def minimal(s, x):
        if x not in s:
            return False
        return all((x[0] <= y[0]) if ties else (x <= y) for y in s)
    if k == 'push':
        return state | {tuple(op[1])} if res == ['ok'] else None
    if k == 'is_empty':
        return state if res == ['b', not state] else None
    if k in ('pop', 'peek'):
        if not state:
            return state if res == ['empty'] else None
        if res[0] != 'v' or not minimal(state, res[1]):
            return None
        return state - {res[1]} if k == 'pop' else state
    if k == 'pushpop':
        s = state | {tuple(op[1])}
        if res[0] != 'v' or not minimal(s, res[1]):
            return None
        return s - {res[1]}
    if k == 'replace':
        if not state:
            # "get the smallest and replace it": nothing to get; documented as IndexError
            return state if res in (['index'], ['empty']) else None
        if res[0] != 'v' or not minimal(state, res[1]):
            return None
        return (state - {res[1]}) | {tuple(op[1])}


def linearize(init, hist, ties, final):
    """hist: list of (thread, op, result, invoked, returned); final: set left at the end"""
    n = len(hist)
    seen = set()
    stack = [(frozenset(), init)]
    while stack:
        done, st = stack.pop()
        if (done, st) in seen:
            continue
        seen.add((done, st))
        if len(done) == n:
            if st == final:
                return True
            continue
        rest = [i for i in range(n) if i not in done]
        first = min(hist[i][4] for i in rest)
        for i in rest:
            if hist[i][3] > first:
                continue
            ns = step(st, hist[i][1], hist[i][2], ties)
            if ns is not None:
                stack.append((done | {i}, ns))
    return False


def run(spec, env):
    from phasor.utilities.priority_queue import heap_priority_queue as m
    Cls = m.HeapPriorityQueueThreadsafe if spec['safe'] else m.HeapPriorityQueue
    mk = (lambda x: E(*x)) if spec['elem'] == 'py' else tuple
    ties = spec['elem'] == 'py'
    src = [mk(x) for x in spec['init']]
    given = {'list': lambda: src, 'iter': lambda: iter(src), 'tuple': lambda: tuple(src)}[spec['how']]()
    keep = list(src)
    q = Cls(given) if spec['init'] or spec['how'] != 'list' else Cls()
    hist = []
    clock = [0]

    def worker(ti, ops):
        for op in ops:
            clock[0] += 1
            t0 = clock[0]
            r = call(q, op, m.Empty, mk)
            clock[0] += 1
            if r[0] == 'v':
                r = ['v', key(r[1])]
            hist.append((ti, op, r, t0, clock[0]))
            env.log.append('T%d %r -> %r' % (ti, op, r))
            env.count('op_' + op[0])
    if len(spec['threads']) == 1:
        worker(0, spec['threads'][0])
    else:
        b = threads.Baton(env.sched, spec['p'], opcodes=spec['opcodes'], limit=200000)
        for ti, ops in enumerate(spec['threads']):
            b.spawn('T%d' % ti, lambda ti=ti, ops=ops: worker(ti, ops))
        b.run()
        env.simsteps += b.ev
        env.fault('preemption', b.switches)
        for t in b.threads:
            if t.exc is not None:
                raise t.exc
    if src != keep:
        raise Violation('caller-list-changed', 'the iterable given to the constructor was modified')
    if hasattr(q, '__len__'):
        left = len(q)
        if bool(q) != (left > 0):
            raise Violation('bool', 'truth value disagrees with the length')
    else:
        left = None
    # drain in one thread: must come out in priority order
    out = []
    last = None
    for _ in range(1000):
        try:
            v = q.pop()
        except m.Empty:
            break
        out.append(key(v))
        if last is not None and out[-1][0] < last:
            raise Violation('out-of-order', 'drained %r after a smaller-priority element %r' % (out[-1], last))
        last = out[-1][0]
    if left is not None and left != len(out):
        raise Violation('length', 'len() said %d, %d elements came out' % (left, len(out)))
    if len(set(out)) != len(out):
        raise Violation('duplicated', 'element returned twice: %r' % out)
    init = frozenset(tuple(x) for x in spec['init'])
    if not linearize(init, hist, ties, frozenset(out)):
        raise Violation('not-linearizable', 'no sequential order of the calls explains: init=%r, history=%r, left=%r' % (
            sorted(init), [(h[0], h[1], h[2], (h[3], h[4])) for h in hist], out))


def shrink(spec):
    th = spec['threads']
    for i in range(len(th)):
        if len(th) > 1:
            yield dict(spec, threads=th[:i] + th[i + 1:])
    for i in range(len(th)):
        for j in range(len(th[i])):
            yield dict(spec, threads=th[:i] + [th[i][:j] + th[i][j + 1:]] + th[i + 1:])
    for i in range(len(spec['init'])):
        yield dict(spec, init=spec['init'][:i] + spec['init'][i + 1:])
    if spec['opcodes']:
        yield dict(spec, opcodes=False)
    if spec['elem'] == 'py':
        yield dict(spec, elem='tuple')
    if spec['how'] != 'list':
        yield dict(spec, how='list')
