#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Compilation never changes what a program computes",
 "For every program and every supported compiler pipeline (the default setup, restricted gate sets, linear and grid topologies, trapped-ion, IBM, AQT, IonQ and AWS setups, and hand-assembled chains), the state and the measurement statistics obtained are, up to a global phase, those of the program's own ideal semantics. "
 "This holds wherever the program flushes, releases qubits, branches on earlier measurement outcomes or lets qubits be garbage collected, and however the commands are batched between compiler stages. "
 "Everything that reaches the back-end is a command that back-end (or the declared target gate set) accepts.",
 ["programs", "configurations", "histories", "schedules"],
 "all programs over the library's gates and control blocks x all stock/hand-made engine lists x all flush, release, batching and measurement-outcome histories",
 "Tests compile a few fixed circuits through one setup each; interaction of decomposition, optimisation, mapping, flush placement and mid-program measurement is a product space they do not sample.",
 ["projectq/setups", "projectq/setups/decompositions", "projectq/cengines", "projectq/libs/math", "projectq/ops"],
 [("decomposition rules and replacement engine", "projectq/cengines/_replacer"), ("stock engine lists", "projectq/setups"), ("gate-set filters", "projectq/setups/_utils.py, restrictedgateset.py")],
 ["wavefunction at the end and at each flush", "measurement outcomes", "commands received by the last engine"])

prop("C02", "Buffered commands are delivered exactly once, in order, at the flush",
 "Each command a program issues is delivered to the back-end exactly once (or as its exact compiled equivalent), and commands that share a qubit are delivered in program order. "
 "After a flush no command is left held back in any compiler stage, so that results of everything issued before it are available. "
 "Where, how often and in what batches a program is flushed or its commands are handed between stages never changes the result.",
 ["programs", "schedules", "histories", "configurations"],
 "all command streams x all flush points x all hand-over batchings x all chains of buffering stages (optimiser, mappers, swap/CNOT flippers, tag removers, command modifiers, back-end buffers)",
 "Tests drive one engine at a time with a handful of commands and one flush at the end.",
 ["projectq/cengines/_optimize.py", "projectq/cengines/_linearmapper.py", "projectq/cengines/_twodmapper.py", "projectq/cengines/_ibm5qubitmapper.py", "projectq/cengines/_swapandcnotflipper.py", "projectq/cengines/_main.py", "projectq/cengines/_basics.py", "projectq/backends/_sim/_simulator.py"],
 [("flush command draining every stage", "projectq/cengines/*"), ("per-qubit pending lists", "projectq/cengines/_optimize.py"), ("stored command list", "projectq/cengines/_linearmapper.py")],
 ["command stream at the end of the chain"])

prop("C03", "Local optimisation preserves the meaning of any command stream",
 "Cancelling inverse pairs, merging rotations and dropping identities never changes the operation a command stream performs (up to global phase), for any window size and any arrival pattern. "
 "Commands are only combined when they act on the same qubits with the same roles, controls and control values and nothing between them acts on those qubits; measurements, allocations and releases are neither lost, duplicated nor reordered against operations on the same qubit.",
 ["programs", "histories", "configurations"],
 "all command streams (including controlled, negatively controlled, multi-qubit, identity and adjacent-inverse gates) x all window sizes x all arrival batchings and flush points",
 "Tests exercise a few hand-picked cancellations on one or two qubits with uncontrolled gates.",
 ["projectq/cengines/_optimize.py", "projectq/ops/_command.py", "projectq/ops/_basics.py", "projectq/ops/_gates.py", "projectq/ops/_metagates.py"],
 [("pairwise inverse/merge/identity scan", "projectq/cengines/_optimize.py"), ("command comparison, inversion and merging", "projectq/ops/_command.py")],
 ["stream out of the optimiser, applied to a state"])

prop("C04", "Qubit mapping respects the device and keeps logical identity",
 "For every program that fits the device, each two-qubit operation leaving a qubit mapper acts on positions the declared topology connects (and in the declared direction where direction matters), and the mapped stream performs the program's operation. "
 "At every moment live logical qubits occupy distinct positions of the device, the mapping the mapper reports after a flush is the true location of every live qubit, and results and queries by logical qubit refer to the right one. "
 "A position is reused only after its previous occupant has been released.",
 ["programs", "histories", "configurations"],
 "all programs with allocation/release/measure/flush histories x linear, ring, grid (with and without custom placement), five-qubit, manual and bounded mappers x sizes and storage limits",
 "Tests inspect a few mappings and swap lists for fixed inputs; none executes long alloc/free/flush histories and checks the mapped state against the unmapped one.",
 ["projectq/cengines/_linearmapper.py", "projectq/cengines/_twodmapper.py", "projectq/cengines/_ibm5qubitmapper.py", "projectq/cengines/_manualmapper.py", "projectq/cengines/_basicmapper.py", "projectq/cengines/_swapandcnotflipper.py", "projectq/backends/_ionq/_ionq_mapper.py"],
 [("mapping search and swap insertion", "projectq/cengines/_linearmapper.py, _twodmapper.py"), ("logical-id tags on measurement", "projectq/meta/_logicalqubit.py"), ("CNOT direction flipping", "projectq/cengines/_swapandcnotflipper.py")],
 ["stream out of the mapper", "reported mapping", "per-qubit results"])

prop("C05", "Every qubit is allocated once and released exactly once",
 "For each qubit a program obtains, the back-end sees exactly one allocation before any use and exactly one release after the last use, however the qubit goes away: explicit deletion, scope exit, garbage collection, a final flush, an exception, engine teardown or interpreter exit. "
 "Identifiers of live qubits are never shared or reused, a released qubit cannot be used again, and dirty qubits keep their status. "
 "After teardown nothing is left allocated.",
 ["histories", "crash_points", "schedules", "programs"],
 "all interleavings of allocation, use, deletion, reference cycles/garbage collection points, flush(release), exceptions and teardown orders",
 "Tests delete one qubit at a time in straight-line code; garbage-collection instants and teardown orders are not sampled.",
 ["projectq/types/_qubit.py", "projectq/cengines/_basics.py", "projectq/cengines/_main.py", "projectq/meta/_dirtyqubit.py"],
 [("finaliser of owning references", "projectq/types/_qubit.py"), ("active-qubit registry and exit hook", "projectq/cengines/_main.py")],
 ["allocation/release commands at the back-end"])

prop("C06", "Compute, control, dagger and loop blocks mean what they say",
 "Any nesting of compute/uncompute (automatic or custom), control (with any pattern of positive and negative control values), dagger and loop blocks performs exactly the operation obtained by expanding the blocks by hand. "
 "This includes ancilla qubits allocated inside blocks: they start in |0>, keep their identity for the action between compute and uncompute, are returned and released exactly once per execution, and invalid uses are rejected with an error instead of producing a different circuit. "
 "The marks of a section (compute, uncompute, loop) survive the translation of its commands by earlier stages, so that a later stage which handles them still executes the section as written.",
 ["programs", "configurations"],
 "all nestings of blocks x bodies with local qubits x control values x iteration counts x engines that do or do not support loops natively",
 "Tests check each block on one or two flat examples and rarely nest them; negative controls inside other blocks are not tested.",
 ["projectq/meta/_compute.py", "projectq/meta/_control.py", "projectq/meta/_dagger.py", "projectq/meta/_loop.py", "projectq/meta/_util.py", "projectq/ops/_command.py"],
 [("block engines inserted in the chain", "projectq/meta/_util.py"), ("inverse replay with fresh ancillas", "projectq/meta/_compute.py, _dagger.py"), ("loop unrolling or tagging", "projectq/meta/_loop.py"), ("control-qubit addition with state", "projectq/ops/_command.py")],
 ["command stream and resulting state"])

prop("C07", "An exception inside a block leaves the compiler chain usable",
 "When user code or an engine raises at any point inside compute, uncompute, control, dagger or loop blocks, the exception reaches the caller and the chain of compiler stages is restored to what it was before the outermost block. "
 "Commands issued afterwards are neither swallowed, nor controlled, inverted or repeated by the aborted block, and no qubit issued before the block is lost.",
 ["crash_points", "programs", "fault_sequences"],
 "all nestings of blocks x every command index at which user code, an engine or the back-end raises x what the program does afterwards",
 "Tests raise in at most one block kind and do not continue to use the engine.",
 ["projectq/meta/_compute.py", "projectq/meta/_control.py", "projectq/meta/_dagger.py", "projectq/meta/_loop.py", "projectq/meta/_util.py"],
 [("insert/drop of block engines", "projectq/meta/_util.py"), ("context-manager exit", "projectq/meta/*.py")],
 ["engine chain after the exception", "state produced by later commands"])

prop("C08", "Measurement is a faithful, repeatable projection",
 "After measuring, the outcome recorded for a qubit is the outcome the back-end sampled for that qubit, whatever mapping, optimisation or buffering lies between, it occurred with the probability the pre-measurement state assigns, and the state is the normalised projection onto it. "
 "Repeating the measurement gives the same value until the qubit is acted on, converting an unmeasured qubit is an error, and no qubit ever reports another's result.",
 ["programs", "histories", "schedules"],
 "all programs with repeated/mid-circuit measurements and entangled qubits x all sampled outcomes x mapped/unmapped, buffered/unbuffered chains and batched measurement requests",
 "Tests measure fixed states once; correlations, repeated and interleaved measurement and rare outcomes are not explored.",
 ["projectq/backends/_sim/_simulator.py", "projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_pysim.py", "projectq/cengines/_main.py", "projectq/meta/_logicalqubit.py"],
 [("sampling and collapse", "projectq/backends/_sim"), ("result registry keyed by logical id", "projectq/cengines/_main.py")],
 ["int(qubit)", "wavefunction after measurement"])

prop("C09", "All simulators agree with quantum mechanics on every history",
 "For every history of allocation, gates with controls, emulated classical arithmetic, operators, time evolution, measurement, collapse, state setting, queries and release, the compiled simulator (with or without gate fusion) and the pure-Python simulator hold the same state as an independent reference, and every query (amplitude, probability, expectation value, full state) returns the reference value. "
 "Queries do not change the state, illegal requests (unknown or non-classical qubits, wrong sizes, zero-probability collapse, duplicate allocation) are rejected without changing it.",
 ["histories", "programs", "configurations"],
 "all operation/query histories x gate fusion on/off x compiled/pure-Python x qubit allocation orders",
 "Tests run short fixed circuits per method; kernels for 1-5 fused qubits with controls at arbitrary positions after arbitrary allocate/release histories are not covered.",
 ["projectq/backends/_sim/_simulator.py", "projectq/backends/_sim/_pysim.py", "projectq/backends/_sim/_cppsim.cpp", "projectq/backends/_sim/_cppkernels"],
 [("gate fusion buffer", "projectq/backends/_sim/_cppkernels/fusion.hpp"), ("kernels", "projectq/backends/_sim/_cppkernels/intrin, nointrin"), ("id-to-bit map", "simulator.hpp, _pysim.py")],
 ["cheat()", "get_probability/get_amplitude/get_expectation_value/get_wavefunction"])

prop("C10", "A seeded simulation is exactly reproducible",
 "Two executions of the same program with the same simulator seed produce the same compiled command stream, the same sequence of measurement outcomes and the same state, independent of hash randomisation, garbage-collection timing, earlier work in the process and the number of worker threads. "
 "Different engines seeded independently do not disturb each other's sequences, and different seeds do give different outcomes.",
 ["schedules", "configurations", "histories"],
 "all programs x seeds x hash seeds x interleavings with another engine in the same process",
 "Tests fix one seed and one hash seed and never compare two runs.",
 ["projectq/backends/_sim/_simulator.py", "projectq/backends/_sim/_pysim.py", "projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/cengines"],
 [("per-simulator generator", "simulator.hpp"), ("seeding", "_simulator.py, _pysim.py")],
 ["outcome sequences and command streams of paired runs"])

prop("C11", "Parallel kernels give the same answer under every thread schedule",
 "The compiled simulator's parallel sections produce the same state and the same query results for every number of worker threads, every interleaving of them and either set of kernels (vectorised or plain), free of races on shared buffers.",
 ["schedules", "configurations"],
 "all interleavings of the worker threads' memory accesses x team sizes x gates/queries with parallel sections",
 "Tests run with one thread; a race needs a particular interleaving.",
 ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_cppkernels/intrin/kernels.hpp", "projectq/backends/_sim/_cppkernels/nointrin/kernels.hpp"],
 [("OpenMP loops and reductions", "projectq/backends/_sim/_cppkernels")],
 ["state vector and query results"])

prop("C12", "Running out of memory never corrupts a simulation",
 "If an allocation fails at any point while the compiled simulator executes an operation or query, the caller gets an error and the simulator still holds the state and qubits it had before that operation; later operations that fit in memory behave normally. "
 "No memory outside the simulator's own buffers is read or written.",
 ["fault_sequences", "crash_points", "histories"],
 "every allocation index in every operation of every history fails, once or repeatedly",
 "No test makes an allocation fail.",
 ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_cppkernels/intrin/alignedallocator.hpp", "projectq/backends/_sim/_cppkernels/fusion.hpp"],
 [("new buffer built before the old one is replaced", "simulator.hpp")],
 ["exceptions", "state after the failure"])

prop("C13", "Independent engines in concurrent threads do not interfere",
 "Independent engines, each driven by its own thread of one process, produce the results they would produce alone, for every interleaving of the threads. "
 "No state, buffer, random sequence or measurement result leaks from one engine to another, including while a simulator runs user callbacks or releases the interpreter lock, or while a cloud back-end waits for its job (which also works outside the main thread).",
 ["schedules", "programs"],
 "all interleavings of two or more threads at lines of library code, operation boundaries, requests, interpreter-lock releases and user callbacks",
 "Tests are single-threaded.",
 ["projectq/backends/_sim/_cppkernels/simulator.hpp", "projectq/backends/_sim/_cppsim.cpp", "projectq/backends/_sim/_pysim.py", "projectq/cengines", "projectq/meta"],
 [("interpreter-lock release around long kernels", "_cppsim.cpp"), ("static scratch buffers", "simulator.hpp")],
 ["state and outcomes per engine"])

prop("C14", "Cloud results are reported for the right qubits, undistorted",
 "For every program with its measurements at the end that is executed on a cloud back-end, the circuit the service receives performs the program's operation; the probabilities reported for any ordered set of logical qubits are the exact marginals of the histogram the service returned for that job, non-negative and summing to one. "
 "The outcome registered for the measured qubits is one joint outcome present in the histogram, drawn with its reported frequency, each bit assigned to the right logical qubit.",
 ["programs", "histories", "configurations"],
 "all circuits, mappings and measurement orders x all returned histograms (sparse, skewed, differently ordered, rounding-prone) x all sampled outcomes, for every supported service",
 "Tests mock one fixed reply per back-end, mostly with a single or symmetric outcome.",
 ["projectq/backends/_ibm/_ibm.py", "projectq/backends/_aqt/_aqt.py", "projectq/backends/_ionq/_ionq.py", "projectq/backends/_awsbraket/_awsbraket.py", "projectq/backends/_azure/_azure_quantum.py", "projectq/backends/_azure/_utils.py"],
 [("circuit translation", "backends/*/*.py _store"), ("histogram to probabilities", "backends/*/*.py _run"), ("logical to physical lookup", "backends/*/*.py")],
 ["submitted payload", "get_probabilities", "int(qubit)"])

prop("C15", "A circuit is submitted to a paid service at most once",
 "One flush of a non-empty circuit submits at most one job, and a job is never submitted again on its own: not after an error or timeout while waiting, not by later flushes without new commands, not at teardown or interpreter exit. "
 "Results used are always those of the job that was submitted (or explicitly asked to be retrieved), never of another.",
 ["fault_sequences", "crash_points", "histories"],
 "all histories of flush, failure, retry, retrieval and teardown x network/service faults at every request x every supported service",
 "Tests mock a single successful exchange and never flush or exit after a failed one.",
 ["projectq/backends/_ibm", "projectq/backends/_aqt", "projectq/backends/_ionq", "projectq/backends/_awsbraket", "projectq/backends/_azure"],
 [("reset of the stored circuit after a run", "backends/*/*.py _run/_reset"), ("submission", "backends/*/*client.py")],
 ["jobs recorded by the simulated service"])

prop("C16", "Waiting for a cloud job is bounded and interruptible without losing it",
 "Waiting for a result ends within the configured number of polls and intervals with the result as soon as the service reports it, or with an error that names the submitted job so it can be retrieved later; a failed, cancelled or vanished job ends the wait with an error instead of a result. "
 "An interrupt during the wait is reported the same way, and the process's interrupt handling is back to what it was before, whatever happened.",
 ["schedules", "fault_sequences", "crash_points"],
 "all job progressions (queue, run, fail, cancel, device going offline) x polling settings x interrupts and network faults at every poll x every supported service",
 "Tests mock immediate completion or a constant status.",
 ["projectq/backends/_ibm/_ibm_http_client.py", "projectq/backends/_aqt/_aqt_http_client.py", "projectq/backends/_ionq/_ionq_http_client.py", "projectq/backends/_awsbraket/_awsbraket_boto3_client.py", "projectq/backends/_azure/_azure_quantum_client.py"],
 [("polling loop and timeout", "backends/*/*client.py"), ("interrupt handler swap", "backends/*/*client.py _get_result")],
 ["virtual time spent, number of polls", "exception text", "signal handler"])

prop("C17", "Nothing is submitted when it cannot run",
 "When authentication fails, the device is unknown, offline or has fewer qubits than the circuit needs, the caller gets an error that says so and no job is created. "
 "A circuit that exactly fits is accepted.",
 ["fault_sequences", "configurations", "inputs"],
 "all device catalogues, statuses, capacities around the needed size, authentication failures x every supported service",
 "Tests use one catalogue with wide margins.",
 ["projectq/backends/_ibm/_ibm_http_client.py", "projectq/backends/_aqt/_aqt_http_client.py", "projectq/backends/_ionq/_ionq_http_client.py", "projectq/backends/_awsbraket/_awsbraket_boto3_client.py", "projectq/backends/_azure"],
 [("online/size checks before run", "backends/*/*client.py send")],
 ["exceptions", "jobs recorded by the simulated service"])

prop("C18", "Successive cloud circuits are independent of each other",
 "What a back-end submits and reports for a circuit depends only on the commands issued since the previous flush, the qubits then in use, and the service's reply for it. "
 "A circuit that succeeded, failed or was abandoned leaves behind no instruction, measurement, qubit or probability that changes a later circuit or its results.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of circuits on one engine with faults at any request of any of them x every supported service",
 "Tests run one circuit per engine.",
 ["projectq/backends/_ibm/_ibm.py", "projectq/backends/_aqt/_aqt.py", "projectq/backends/_ionq/_ionq.py", "projectq/backends/_awsbraket/_awsbraket.py", "projectq/backends/_azure/_azure_quantum.py"],
 [("clear flag and reset", "backends/*/*.py")],
 ["payloads of successive jobs compared with those of a fresh engine"])

prop("C19", "The classical simulator computes the exact bit-level result",
 "For every history of allocation, release, reads, writes, (negatively) controlled NOTs and arithmetic, the classical simulator holds exactly the bits a bit-array model holds, for any number of qubits, release order and mapper, and reads/writes address the requested qubits only.",
 ["histories", "programs", "configurations"],
 "all histories of allocation/release/write/read/gates x register sizes and orders x with and without a mapper and buffering stages",
 "Tests use short fixed sequences.",
 ["projectq/backends/_sim/_classical_simulator.py", "projectq/libs/math"],
 [("bit positions compacted on release", "_classical_simulator.py")],
 ["read_bit/read_register/int(qubit)"])

prop("C20", "Observing engines count and show exactly what passes through",
 "Resource counters, command printers and circuit drawers placed anywhere in the chain forward every command unchanged, once and in order. "
 "Their reports equal those recomputed from the commands that passed: counts per gate and number of controls, maximum number of simultaneously live qubits, circuit depth, printed lines and drawn items; as last engine they register a result for every measured qubit, under its logical identity.",
 ["programs", "histories", "configurations"],
 "all programs with allocation/release/flush histories x any position of the observers, before or after mappers",
 "Tests check a couple of totals on one circuit.",
 ["projectq/backends/_resource.py", "projectq/backends/_printer.py", "projectq/backends/_circuits/_drawer.py", "projectq/backends/_circuits/_drawer_matplotlib.py"],
 [("per-command accounting", "_resource.py"), ("pass-through receive", "_printer.py, _drawer.py")],
 ["reports vs a recomputation from the recorded stream"])

prop("C21", "Drawer settings survive I/O failures",
 "Producing a drawing with an existing, readable settings file uses it and leaves it untouched; without one, the defaults are used and written. "
 "An I/O failure or a crash at any point while the defaults are written never makes later drawings fail on a half-written file, nor replaces user settings, nor silently drops them.",
 ["fault_sequences", "crash_points"],
 "every I/O call failing (missing, permission, disk full, short or torn write, crash) on every drawing of a sequence",
 "Tests mock the file with a fixed string.",
 ["projectq/backends/_circuits/_to_latex.py"],
 [("read-or-create settings.json", "_to_latex.py")],
 ["file contents and later drawings"])

prop("C22", "The unitary simulator reports the circuit's unitary and its history",
 "For every program, the unitary reported is the product of the gates received since the last reset point over the qubits in allocation order, and the history holds, in order, every earlier unitary. "
 "Measurement outcomes follow the state that the circuit really prepared, wherever it was flushed.",
 ["histories", "programs"],
 "all programs x allocation/flush/measure/release placements",
 "Tests flush once at the end of one circuit.",
 ["projectq/backends/_unitary.py"],
 [("unitary and state update on flush", "_unitary.py")],
 ["unitary, history, int(qubit)"])

prop("C23", "Credentials never leave the authenticated channel",
 "Access tokens and secret keys given to or typed for a cloud back-end appear only in requests to that service: never, unless verbose output was asked for, in anything printed or raised, whatever errors occur.",
 ["fault_sequences", "histories"],
 "all sessions and faults x every supported service",
 "Tests do not look at printed output.",
 ["projectq/backends/_ibm/_ibm_http_client.py", "projectq/backends/_aqt/_aqt_http_client.py", "projectq/backends/_ionq/_ionq_http_client.py", "projectq/backends/_awsbraket/_awsbraket_boto3_client.py"],
 [("authenticate", "backends/*/*client.py")],
 ["captured output and exceptions", "requests recorded by the simulated service"])

# --- pure functions of their input: listed, not claimed --------------------------------------
prop("N01", "Gate algebra: inverse, merge, equality and identity are consistent",
 "For every gate, its inverse undoes it, merging equals composing, gates that compare equal have equal action and hash, and a gate reported as identity acts as one.",
 ["inputs"], "all gates and parameter values", "Tests sample fixed angles.",
 ["projectq/ops/_basics.py", "projectq/ops/_gates.py", "projectq/ops/_metagates.py"], [("angle normalisation, merge, inverse", "projectq/ops/_basics.py")], ["gate.matrix"])
prop("N02", "Operator algebra on qubit operators is exact",
 "Sums, products, scalar products, comparison and simplification of qubit operators agree with the corresponding matrices.",
 ["inputs"], "all operators", "Tests sample fixed operators.",
 ["projectq/ops/_qubit_operator.py"], [("Pauli product table", "projectq/ops/_qubit_operator.py")], ["terms"])
prop("N03", "Generated drawings depict the circuit",
 "The LaTeX and matplotlib drawings produced for a recorded circuit show every gate on the right wires in order.",
 ["inputs"], "all circuits", "Tests compare a few strings.",
 ["projectq/backends/_circuits/_to_latex.py", "projectq/backends/_circuits/_plot.py"], [("layout", "projectq/backends/_circuits")], ["get_latex/draw output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
