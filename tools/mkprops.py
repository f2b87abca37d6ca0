#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so the wording has one home)"""
import json, os
P = []
def add(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state, mechanism=mech, observe_at=observe, hook_needed=hook)))

SYS = ["phasor/system/system.py", "phasor/system/ports_algorithm.py", "phasor/system/matrix_algorithm.py",
       "phasor/system/matrix_injections.py", "phasor/system/solver_algorithm.py"]

add("C01", "Circuit readouts obey circuit theory under every processing and wiring order",
    "For any connected linear electrical network of resistors, capacitors, inductors, transformers, op-amps, sources, cables/junctions and terminations, "
    "every DC voltage/current readout and every AC transfer function equals the solution of Kirchhoff's laws for that network. "
    "The value does not depend on the order in which components are created, bonded or read, on bond direction or on how a multi-way junction is spelled, nor on the order in which the engine visits elements, pending updates, field keys or matrix nodes.",
    ["schedules", "configurations"],
    "for all networks of the listed elements x all assembly orders (construction, bond order, bond direction, junction spelling, readout order) x all internal processing orders of the engine's unordered worklists and sets",
    "The engine iterates hash/address ordered sets and pops an unordered worklist, so each test run sees one arbitrary order of one hand-made network; the order space is factorial and differs between processes.",
    SYS + ["phasor/electronics/elements.py", "phasor/electronics/passive.py", "phasor/electronics/sources.py", "phasor/electronics/opamps.py", "phasor/electronics/multimeter.py", "phasor/electronics/ports.py"],
    [dict(name="owners_update", meaning="pending elements whose port keys must be re-propagated", where="phasor/system/ports_algorithm.py:PortUpdatesAlgorithm"),
     dict(name="bond_pairs", meaning="which ports are joined", where="phasor/system/system.py:BGSystem")],
    [dict(name="worklist fixpoint over (port, key)", where="phasor/system/ports_algorithm.py"),
     dict(name="auto-created junctions for multi-bonded ports", where="phasor/electronics/ports.py")],
    ["DCReadout.DC_readout", "ACReadout.AC_sensitivity"])

add("C02", "Mechanical readouts obey Newton's laws under every processing and wiring order",
    "For any linear one-dimensional mechanical network of masses, springs (with loss), dampers, displacement and force sources and terminations, every displacement and force response equals the solution of the network's equations of motion. "
    "The value does not depend on construction, bonding or reading order, on bond direction, nor on the engine's internal processing order.",
    ["schedules", "configurations"],
    "for all mechanical networks of the listed elements x all assembly orders x all internal processing orders",
    "Multi-bond mechanical nodes iterate an address-ordered set of partners and share the engine's unordered worklists; a test sees one order per process.",
    SYS[:3] + ["phasor/mechanical/elements.py", "phasor/mechanical/passive.py", "phasor/mechanical/sources.py", "phasor/mechanical/multimeter.py", "phasor/mechanical/ports.py"],
    [dict(name="_bond_partners", meaning="partners of a mechanical port", where="phasor/mechanical/ports.py")],
    [dict(name="auto-created junctions", where="phasor/mechanical/ports.py")],
    ["ACReadout.AC_sensitivity", "DCReadout.DC_readout"])

add("C03", "Optical fields, powers and length responses match wave optics in any order",
    "For any network of lasers, mirrors and beamsplitters (with loss), spaces, wave plates, rotators, circulators and photodiodes, the steady-state power on every photodiode and its AC response to mirror motion, laser amplitude or phase drive equals the coherent plane-wave solution of the network, and optical power is conserved: what the lasers emit equals what leaves plus what the stated losses absorb. "
    "The values do not depend on assembly order, on bond direction or on the engine's internal processing order.",
    ["schedules", "configurations"],
    "for all optical networks of the listed elements (including coupled and recycled cavities, folded mirrors and both polarizations) x all assembly orders x all internal processing orders",
    "Tests compare a few fixed cavities; key propagation, coupling construction and elimination order all follow unordered sets whose order changes with addresses and hash seeds.",
    SYS + ["phasor/optics/mirror.py", "phasor/optics/laser.py", "phasor/optics/space.py", "phasor/optics/photodiode.py", "phasor/optics/polarization.py", "phasor/optics/circulator.py", "phasor/optics/selective_mirrors.py", "phasor/optics/selectors.py"],
    [dict(name="port_cplgs", meaning="set of field keys (frequency, polarization, side) present at each port", where="phasor/system/ports_algorithm.py")],
    [dict(name="perturbative DC solve then linear AC solve", where="phasor/system/solver_algorithm.py")],
    ["DCReadout.DC_readout", "ACReadout.AC_sensitivity"])

add("C04", "Signal chains realise the product and sum of their declared transfer functions",
    "For any network of gains, summing/distribution amplifiers, rational filters, integrators, state-space models, generators, mixers and modulators, with or without feedback, each readout equals the algebraic signal-flow solution for the declared transfer functions at that frequency. "
    "This holds for scalar and array frequencies, whatever the assembly order and the engine's internal processing order.",
    ["schedules", "configurations"],
    "for all signal-flow graphs of the listed blocks x all assembly orders x all internal processing orders",
    "Tests check single blocks in a chain; feedback, fan-out and mixed harmonics exercise the worklist and elimination order that tests never vary.",
    SYS[:3] + ["phasor/signals"],
    [dict(name="port_cplgs", meaning="harmonic keys at each signal port", where="phasor/system/ports_algorithm.py")],
    [dict(name="transfer-function edges", where="phasor/signals")],
    ["ACReadout.AC_sensitivity", "DCReadout.DC_readout"])

add("C05", "Readout noise is the complete, order-free sum of every source's contribution",
    "The noise spectral density a readout reports equals the sum over all noise sources of source density times squared magnitude of its transfer to that readout (Johnson noise of every resistor, declared voltage, current and signal noise, optical shot/vacuum noise), with the per-source breakdown summing to the total and one-sided and two-sided declarations equivalent. "
    "It is independent of assembly order, processing order and of which other readouts exist or were read first.",
    ["schedules", "configurations"],
    "for all networks with noise sources x all assembly orders x all internal processing orders x all reading orders",
    "Noise accumulates by iterating unordered sets of ports and keys with in-place sums; one missing or doubled contribution only shows for particular orders and source pairings.",
    ["phasor/readouts/noise.py", "phasor/readouts/AC.py", "phasor/electronics/noise.py", "phasor/signals/noise.py", "phasor/optics/vacuum.py"] + SYS[-1:],
    [dict(name="CSD", meaning="accumulated cross-spectral density", where="phasor/readouts/noise.py:NoiseReadout")],
    [dict(name="per-source noise expectation injection", where="phasor/system/matrix_injections.py")],
    ["ACReadout.AC_PSD", "ACReadout.AC_PSD_by_source", "NoiseReadout.CSD"])

add("C06", "A readout's value does not depend on what was read before it or with it",
    "In one system, the values returned by DC, AC and noise readouts are the same whether each is read alone, first, last, repeatedly or after any other, and the same as in a system holding only that readout. "
    "Reading never mutates results already handed out.",
    ["histories", "schedules"],
    "for all sequences of readout requests (with repeats and subsets) over one system x all internal processing orders",
    "Solutions are built lazily and cached per requested drive/readout set, so correctness depends on the history of requests; tests read each value once in one order.",
    ["phasor/readouts/AC.py", "phasor/readouts/DC.py", "phasor/readouts/noise.py", "phasor/readouts/homodyne_AC.py", "phasor/system/solver_algorithm.py"],
    [dict(name="coupling/driven solution caches", meaning="memoised solves", where="phasor/system/solver_algorithm.py:SystemSolver")],
    [dict(name="memoised properties", where="phasor/readouts/*.py")],
    ["all readout properties"])

add("C07", "Regenerating with overrides equals building the overridden system from scratch",
    "Regenerating a system any number of times, with any history of configuration overrides, gives readouts equal to a freshly built system with the same final parameters. "
    "The original system and every earlier regeneration keep their own results unchanged, and no override leaks into a system it was not given to.",
    ["histories", "schedules"],
    "for all histories of regenerate / override / read operations on a family of systems",
    "State carried from one incarnation to the next (shared configuration trees, graft records, caches) only matters over multi-step histories; tests regenerate once.",
    ["phasor/base/autograft.py", "phasor/base/bases.py", "phasor/system/system.py", "phasor/alm/system.py"],
    [dict(name="ctree", meaning="configuration tree passed down and merged", where="phasor/base/autograft.py")],
    [dict(name="inst_preincarnation replay", where="phasor/base/autograft.py")],
    ["readouts of original and regenerated systems"])

add("C08", "An interrupted evaluation never leaves a wrong answer behind",
    "If computing a solution or readout is cut short at any point by an exception (memory exhaustion, keyboard interrupt, a failing user-supplied spectrum function, a numerical-library failure), later requests on the same system either give the same value an undisturbed run gives or raise an error. "
    "They never return a partial, stale or differently valued result, other systems in the process are unaffected, and a freshly built system afterwards is correct.",
    ["crash_points", "histories"],
    "for all points inside a lazy evaluation at which an exception can surface x all subsequent read histories",
    "Half-updated caches and swapped work sets only exist if the exception lands between two specific statements; tests never interrupt evaluation.",
    SYS + ["phasor/readouts", "phasor/base/autograft.py"],
    [dict(name="lazy memo state", meaning="which properties are already computed", where="phasor/base/bases.py")],
    [dict(name="lazy evaluation of solution and readouts", where="phasor/system/system.py")],
    ["readout values after a failed evaluation"])

add("C09", "Every sparse solver returns the true solution for every elimination order",
    "For any well-conditioned sparse system given as a from/to edge map of scalar or array entries (self-loops, missing diagonals, unsymmetric patterns, several disconnected blocks, entries varying along the array), each registered solver returns for every requested output node the exact linear-system solution for the requested inputs, up to rounding. "
    "This holds for any subset of inputs and outputs and for every order in which nodes are stored, visited or eliminated, and the caller's matrix is left as documented (a copied system is untouched).",
    ["inputs", "schedules"],
    "for all sparse edge maps x all input/output subsets x all tie-breaks of the elimination order",
    "The elimination order follows queue ties and hash-ordered sets; numerically or structurally special pivots are only reached for some orders of some patterns.",
    ["phasor/matrix/DAG_algorithm.py", "phasor/matrix/DAG_algorithm_impl.py", "phasor/matrix/DAG_algorithm_extra.py", "phasor/matrix/graph_algorithm.py", "phasor/matrix/scisparse_algorithm.py", "phasor/matrix/SRE_matrix_algorithms.py", "phasor/matrix/solvers_registry.py"],
    [dict(name="seq/req/edge_map", meaning="forward and reverse adjacency plus values", where="phasor/matrix/DAG_algorithm.py")],
    [dict(name="greedy node elimination with a priority queue", where="phasor/matrix/DAG_algorithm_impl.py")],
    ["returned edge_map of inverse_solve_inplace"])

add("C10", "External-partitioner failures never corrupt a solve or leak temporary files",
    "When matrix ordering is delegated to the external graph-partitioning program, the result of the solve is the true solution whatever valid permutation the program returns. "
    "If the program is missing, fails, is killed, or its input or output file is short, torn, empty or cannot be written, the caller gets either the true solution or an explicit exception, never a wrong answer, and no temporary file or open descriptor is left behind.",
    ["fault_sequences", "schedules"],
    "for all sequences of process and file-system faults around the partitioner call x all returned permutations",
    "The partitioner is not installed where tests run, and process or disk failures cannot be provoked by ordinary tests.",
    ["phasor/matrix/metis_reorder.py", "phasor/matrix/DAG_algorithm.py"],
    [dict(name="graph file / .iperm file", meaning="hand-off to the external program", where="phasor/matrix/metis_reorder.py")],
    [dict(name="subprocess call and permutation read-back", where="phasor/matrix/metis_reorder.py")],
    ["exception or solution", "temporary directory contents", "open file descriptors"])

add("C11", "The priority queue stays ordered and loses nothing, alone or shared by threads",
    "Any sequence of push, pop, push-pop, replace, peek and emptiness operations on a heap priority queue returns elements in priority order and loses, duplicates or resurrects none. "
    "For the thread-safe variant this holds for every interleaving of calling threads: each history is equivalent to some sequential order of the calls.",
    ["schedules", "histories"],
    "for all operation histories x all thread interleavings at the granularity of single source lines",
    "Lost or duplicated entries need a thread switch between two particular lines; tests use one thread.",
    ["phasor/utilities/priority_queue/heap_priority_queue.py", "phasor/utilities/priority_queue/__init__.py"],
    [dict(name="queue and lock", meaning="heap contents", where="phasor/utilities/priority_queue/heap_priority_queue.py")],
    [dict(name="lock-protected heap operations", where="phasor/utilities/priority_queue/heap_priority_queue.py")],
    ["return values of queue operations"])

add("C12", "Simulations evaluated side by side never influence each other",
    "Independent systems built, solved and read in one process - one after another, nested inside each other's callbacks, or interleaved by threads - each give exactly the values they give alone. "
    "Changing parameters, solver, readouts or failing in one of them never changes the results of another.",
    ["schedules", "histories"],
    "for all interleavings (at source-line granularity) of build/solve/read activities of independent systems",
    "Leaks through module-level registries, shared default arguments, class attributes or reused matrices need two systems alive at once with a switch at the right moment.",
    SYS + ["phasor/matrix/solvers_registry.py", "phasor/matrix/scisparse_algorithm.py", "phasor/base/autograft.py", "phasor/base/bases.py"],
    [dict(name="module-level and class-level state", meaning="anything shared by two systems", where="phasor/**")],
    [dict(name="per-instance state", where="phasor/base/bases.py")],
    ["readout values of each system"])

add("C13", "Beam-layout queries reflect the current layout in any order of edits and queries",
    "For any beam-line of lenses, mirrors, substrates, spaces and beam targets, every query (ray matrices between positions, their inverses, propagated beam parameters, widths, target overlaps) equals the ordered product of the ideal element matrices for the layout as it stands at that moment. "
    "This holds for every history of insertions, queries, regenerations, reversals and replicas, independent of insertion order, and matrices compose: A to C equals A to B times B to C.",
    ["histories", "schedules"],
    "for all histories of insert / query / regenerate / replica operations on beam-line layouts x all internal orders",
    "Results are memoised and invalidated by insertion; a stale memo needs a query before the edit, which the fixed layouts in the tests do not do.",
    ["phasor/alm/system.py", "phasor/alm/bases.py", "phasor/alm/measurements.py", "phasor/alm/space.py", "phasor/alm/target.py", "phasor/alm/beam_param.py", "phasor/alm/composites.py", "phasor/alm/utils.py"],
    [dict(name="invalidate_auto memo", meaning="cached layout and matrices", where="phasor/alm/system.py")],
    [dict(name="invalidation on insertion", where="phasor/alm/utils.py")],
    ["System.matrix*", "measurements.*"])

add("C14", "Frequency conversion converges to the same conserving solution in any order",
    "For systems that mix frequencies (optical amplitude/phase modulation and frequency shifting, harmonic generation, mixers), the iterated steady state contains exactly the sidebands and harmonics the drive frequencies generate up to the configured order, with amplitudes following the closed-form response, and total optical power is conserved by lossless conversion. "
    "The result does not depend on assembly order or on the engine's internal processing order.",
    ["schedules", "configurations"],
    "for all frequency-converting networks of the listed elements x all assembly orders x all internal processing orders of the iteration",
    "The nonlinear iteration visits unordered sets of keys and injections; missing a harmonic or counting it twice depends on visiting order and only shows at particular orders and depths.",
    SYS + ["phasor/optics/AOM.py", "phasor/optics/nonlinear_crystal.py", "phasor/optics/EZSqz.py", "phasor/signals/mixer.py", "phasor/signals/signal_generator.py"],
    [dict(name="solution_vector", meaning="iterated field values", where="phasor/system/solver_algorithm.py")],
    [dict(name="perturbative iteration with nonlinear injections", where="phasor/system/solver_algorithm.py")],
    ["DCReadout.DC_readout", "field inventories"])

add("C15", "The set of propagated fields is the same full closure in every processing order",
    "Building a system determines, for each port, exactly the field keys reachable from its sources and readouts through its couplings; the resulting inventory of (port, key) pairs and coupling edges is identical for every order in which elements, ports and keys are processed and for every assembly order. "
    "Joining N ports to one junction couples every one of them to every other.",
    ["schedules"],
    "for all supported networks x all internal processing orders x all assembly orders",
    "The fixpoint is driven by an unordered worklist with swap-in/swap-out update sets; a lost wake-up needs one specific order.",
    ["phasor/system/ports_algorithm.py", "phasor/system/matrix_algorithm.py", "phasor/system/system.py", "phasor/base/dictionary_keys.py"],
    [dict(name="port_cplgs_update / port_cplgs_updateX", meaning="double-buffered pending keys per port", where="phasor/system/ports_algorithm.py")],
    [dict(name="resolve_port_updates", where="phasor/system/ports_algorithm.py")],
    ["solution port inventory", "coupling edge set"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + "\n")
print(len(P))
