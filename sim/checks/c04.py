"""C04: signal-flow networks under every assembly and processing order, against the algebraic signal-flow solution."""
from ..core import expect
from ..dom import sig

ID = 'C04'
LEVEL = 'exploration'
QUICK = 3000
THOROUGH = 60000
RULE = ('a seeded random signal network (linear with feedback, or a chain of generators, mixers and modulators), assembled in a seeded '
        'order and bond spelling, solved with every unordered set/worklist of the engine ordered by the seed; non-trivial: at least one '
        'engine decision differed from insertion order')
REAL = ['phasor.system (ports, matrix, solver algorithms)', 'phasor.signals', 'phasor.readouts', 'phasor.matrix DAG solver', 'numpy']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler', 'the user-supplied spectrum functions: rational functions of the workload']
ASSUMPTIONS = ['feedback networks whose loop matrix has condition number below 1e6',
               'no static level enters a mixing element (its amplitude convention is undeclared)',
               'the Integrator is the transfer 1/(-i F), its declared definition',
               'cutoffs are judged at the nominal frequency of a line (1 kHz for the AC drive), as declared',
               'mean-square detectors ignore lines beyond the configured order']

gen = sig.gen
shrink = sig.shrink


def run(spec, env):
    want = sig.ref(spec)
    b = sig.build(spec)
    order = list(range(len(spec['reads'])))
    env.rng('readorder').shuffle(order)
    for i in order:
        got = b.read(i)
        r = spec['reads'][i]
        expect('wrong-' + r['k'], 'read %d %r' % (i, r), got, want[i][0], 1e-6, want[i][1] + 1e-15)
        env.count('read_' + r['k'])
    for e in spec['els']:
        env.count('el_' + e['t'])
