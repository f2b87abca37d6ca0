"""C02: mechanical networks under every assembly and processing order, against the equations of motion."""
from ..core import expect
from ..dom import mech

ID = 'C02'
LEVEL = 'exploration'
QUICK = 4000
THOROUGH = 60000
RULE = ('a seeded random mechanical network (scalar and XYZ-bundled), assembled in a seeded order and spelling, solved with every '
        'unordered set/worklist of the engine ordered by the seed; non-trivial: at least one engine decision differed from insertion '
        'order and the network has a unique motion')
REAL = ['phasor.system (ports, matrix, solver algorithms)', 'phasor.mechanical', 'phasor.readouts', 'phasor.matrix DAG solver', 'numpy']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['Newtonian point masses, linear springs k(1+i*phi), viscous dampers, massless levers',
               'String/ZConverter (continuous strings) are outside the property']

gen = mech.gen
shrink = mech.shrink


def run(spec, env):
    want = mech.ref(spec)
    b = mech.build(spec)
    order = list(range(len(spec['reads'])))
    env.rng('readorder').shuffle(order)
    for i in order:
        got = b.read(i)
        r = spec['reads'][i]
        expect('wrong-' + ('DC' if r['d'] == 'DC' else 'AC'), 'read %d %r' % (i, r), got, want[i][0], 1e-6, want[i][1] + 1e-12)
        env.count('read_' + r['k'] + ('_DC' if r['d'] == 'DC' else '_AC'))
    for e in spec['els']:
        env.count('el_' + e['t'])
