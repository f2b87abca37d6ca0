"""C01: circuits under every assembly and processing order, against nodal analysis."""
from ..core import Violation, expect
from ..dom import elec

ID = 'C01'
LEVEL = 'exploration'
QUICK = 5000
THOROUGH = 60000
RULE = ('a seeded random circuit, assembled by user code in a seeded order and spelling, solved with every unordered '
        'set/worklist of the engine ordered by the seed; non-trivial: at least one engine decision differed from insertion order '
        'and the circuit has a unique solution')
REAL = ['phasor.system (ports, matrix, solver algorithms)', 'phasor.electronics', 'phasor.readouts', 'phasor.matrix DAG solver', 'numpy']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['reference is ideal circuit theory with 50 Ohm reference impedance cables',
               'transformer law taken as the admittance form the repository tests pin down (leakage-inductance model)']


def gen(rng, tier):
    return elec.gen(rng, tier)


shrink = elec.shrink


def run(spec, env):
    want = elec.ref(spec)
    b = elec.build(spec)
    order = list(range(len(spec['reads'])))
    env.rng('readorder').shuffle(order)
    for i in order:
        got = b.read(i)
        expect('wrong-' + ('DC' if spec['reads'][i]['d'] == 'DC' else 'AC'),
               'read %d %r' % (i, spec['reads'][i]), got, want[i][0], 1e-6, want[i][1] + 1e-12)
        env.count('read_' + spec['reads'][i]['k'] + ('_DC' if spec['reads'][i]['d'] == 'DC' else '_AC'))
    for e in spec['els']:
        env.count('el_' + e['t'])
