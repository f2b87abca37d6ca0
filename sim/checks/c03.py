"""C03: optical networks under every assembly and processing order, against plane-wave scattering."""
from ..core import expect
from ..dom import optic

ID = 'C03'
LEVEL = 'exploration'
QUICK = 1500
THOROUGH = 24000
RULE = ('a seeded random optical network (random pairings of the ports of lasers, mirrors, spaces, polarisation optics, modulators and '
        'photodiodes), assembled in a seeded order and spelling, solved with every unordered set/worklist of the engine ordered by the '
        'seed; non-trivial: at least one engine decision differed from insertion order')
REAL = ['phasor.system (ports, matrix, solver algorithms)', 'phasor.optics', 'phasor.readouts', 'phasor.matrix DAG solver', 'numpy']
STUB = ['iteration order of set/frozenset and id(): seeded scheduler']
ASSUMPTIONS = ['plane waves, one optical wavelength (1064 nm) with classical offsets; mirrors held or driven by a rigid displacement source (no radiation pressure)',
               'networks whose round-trip matrix has condition number below 3e5',
               'backscatter only on beamsplitters (the two-port form has no unitary meaning)',
               'phase drive of unit size turns the field by half a radian (the convention of PM and AMPM)',
               'pure selectors are only fed the polarisation their output carries']

gen = optic.gen
shrink = optic.shrink


def run(spec, env):
    want = optic.ref(spec)
    b = optic.build(spec)
    order = list(range(len(spec['reads'])))
    env.rng('readorder').shuffle(order)
    for i in order:
        got = b.read(i)
        r = spec['reads'][i]
        expect('wrong-' + r['k'], 'read %d %r' % (i, r), got, want[i][0], 1e-6, want[i][1] + 1e-15)
        env.count('read_' + r['k'])
    for e in spec['els']:
        env.count('el_' + e['t'])
