"""Writes /verif/properties.jsonl.  Kept as a script so the wording stays reviewable."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": hook},
    }

H2 = "quantum_systems/quantum_dots/two_dim/two_dim_helper.py"
HO = "quantum_systems/quantum_dots/two_dim/two_dim_ho.py"
OD = "quantum_systems/quantum_dots/one_dim/one_dim_qd.py"
POT = "quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"
DVR = "quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"
BS = "quantum_systems/basis_set.py"
SY = "quantum_systems/system.py"
GO = "quantum_systems/general_orbital_system.py"
SP = "quantum_systems/spatial_orbital_system.py"
OP = "quantum_systems/time_evolution_operators/operator.py"
SA = "quantum_systems/sampler.py"
CU = "quantum_systems/custom_system.py"
RB = "quantum_systems/random_basis.py"
SH = "quantum_systems/system_helper.py"
CE = "quantum_systems/quantum_dots/two_dim/coulomb_elements.py"

props = [
P("C01", "Coulomb cache never serves wrong elements after crashes or I/O faults",
  "With on-disk caching of the two-dimensional Coulomb elements enabled, every request that returns, returns exactly the array (shape, type, values) that an uncached computation of that size returns. This holds whatever process kills, power losses, torn, short or lost writes, full disks, or read/write errors struck earlier requests of any size. A request may raise while a fault is hitting it, but never hands out partial, zero-filled, truncated or wrong-size elements.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of cached requests with a process kill, power loss or I/O error at every file-system operation of any of them",
  "test_tdho_caching stores and reloads one size once, on a healthy disk; no test crashes, fills the disk or reloads after a failed store.",
  [H2], [("store and reload of the element file", H2 + ":get_coulomb_elements")],
  ["get_coulomb_elements return value", "TwoDimensionalHarmonicOscillator.u"],
  [{"name": "tdho_coulomb_num_orbitals=N.npy", "meaning": "cached elements for N orbitals", "where": "sys.path[0] of the caller"}]),
P("C02", "Coulomb cache heals itself: once faults stop the next request succeeds",
  "However a previous cached Coulomb request ended (completed, raised, was killed, or lost power at any point of its storing or loading), the next request for any size, made when no fault is active, succeeds and returns the correct elements with no manual cleanup. After it the cache again holds a complete, loadable file for that size, and a further request is served from it without writing to storage again.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash or fault point inside a cached request, followed by fault-free requests",
  "No test leaves a damaged or half-written cache file behind and asks again.",
  [H2], [("existence check, load, store", H2 + ":get_coulomb_elements")],
  ["get_coulomb_elements return value", "files in the cache directory"]),
P("C03", "Processes sharing one Coulomb cache directory never disturb each other",
  "When several processes request cached Coulomb elements through the same directory, under any interleaving of their file operations and even if some of them are killed midway, every surviving request succeeds and returns exactly the uncached elements for its own size. When all are done, each requested size that completed is present as one complete, loadable file and no other visible debris of completed requests remains.",
  ["schedules", "crash_points"],
  "every interleaving of the file-system operations of 2-4 processes requesting equal and different sizes on one directory, with kills of some processes at any operation",
  "The suite runs one process, without xdist precisely because tests share the cache file.",
  [H2], [("check, compute, publish sequence on a shared path", H2 + ":get_coulomb_elements")],
  ["get_coulomb_elements return value", "files in the cache directory"]),
P("C04", "Coulomb caching is opt-in, per size and invisible over any request history",
  "For any history of requests of different sizes in which caching is switched on and off through the environment, cache files are deleted in between, and callers modify the arrays they received, every request returns the elements an uncached fresh process would return for that size, as an array the caller owns. While caching is off nothing is read from or written to the cache directory; while it is on, each size has its own file.",
  ["histories", "schedules"],
  "every interleaving of on/off requests of any sizes by several clients, caller-side mutation of results, deletions of cache files and clock jumps",
  "test_tdho_caching makes two requests of one size and never modifies a result, switches caching off, or mixes sizes.",
  [H2, HO], [("environment switch, size-keyed file name", H2 + ":get_coulomb_elements")],
  ["get_coulomb_elements return value", "file operations in the cache directory"]),
P("C05", "A sample dump is all-or-nothing on disk and loses no samples",
  "When dumping samples to disk returns, the named file in the named (created if necessary) directory loads back to exactly the samples returned. If the dump is killed, loses power, or fails with an I/O error at any point, the file holds either the complete previous dump or the complete new one, never a torn mixture, and an earlier completed dump is never lost. After a failed dump the collected samples are still in memory and a retry on a healthy disk succeeds.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point and I/O fault inside every dump of any sequence of dumps (same or different file, concurrent dumpers of one file, with and without saving)",
  "There is no test of the sampler module at all.",
  [SA], [("dump", SA + ":SampleCollector.dump")],
  ["dump return value", "file content after the dump", "get_samples"]),
P("C06", "Every sampler sees every step exactly once, in order, whatever fails",
  "For any finite iterable of samplers, each sampling step calls every sampler exactly once with that step, in the given order for ordered containers, for as many steps as are taken. Each dump asks every sampler once and chains the dictionaries they return, keeping everything samplers and callers have added so far; with saving disabled nothing is written. A sampler that raises stops only the step or dump in which it raised, the error reaches the caller, and later steps and dumps again serve all samplers.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of steps, added samples and dumps over lists, tuples, sets, generators and other iterables, with samplers failing at arbitrary calls",
  "There is no test of the sampler module at all.",
  [SA], [("sampler fan-out", SA + ":SampleCollector")],
  ["calls received by samplers", "dump return value", "get_samples"]),
P("C07", "Copies are complete and independent; copying never disturbs the source",
  "Copying a system or basis set, and deriving a general-orbital system from a spatial one, yields an object equal to its source in everything observable (for the derived system: equal to the spin-doubled source), including an installed time-dependent operator that now acts on the copy. No later operation on, or modification of arrays of, either object is ever visible in the other. Making the copy, even when it fails or is interrupted part-way, leaves the source exactly as it was and usable.",
  ["histories", "fault_sequences", "schedules"],
  "every history of operations on sources and copies, with a memory failure or interrupt at every call made while copying",
  "test_copy copies one system once and modifies one entry of h; no test fails a copy, copies with an operator installed, or follows both objects afterwards.",
  [BS, SY, SP, GO], [("copy_basis", BS + ":BasisSet.copy_basis"), ("copy_system", SY + ":QuantumSystem.copy_system"), ("construct_general_orbital_system", SP + ":SpatialOrbitalSystem.construct_general_orbital_system")],
  ["all array getters, sizes, energies and h(t), u(t) of source and copy"]),
P("C08", "In-place conversions are all-or-nothing when they fail part-way",
  "Changing the basis, converting to spin orbitals, anti-symmetrising, and casting a basis set or system in place either complete or leave everything observable about the object (sizes, flags, all matrix elements and orbitals) exactly as before the call. This holds when the call is rejected because of its arguments, runs out of memory, or is interrupted at any point inside it. After such a failure the same conversion can be retried and gives the result it would have given the first time.",
  ["crash_points", "fault_sequences", "histories"],
  "every call point inside every in-place conversion, hit by a memory failure or interrupt, plus rejected arguments, followed by retries",
  "No test makes a conversion fail; all conversions in the suite succeed.",
  [BS, SY, DVR, GO], [("change_basis", BS + ":BasisSet.change_basis"), ("change_to_general_orbital_basis", BS + ":BasisSet.change_to_general_orbital_basis"), ("QuantumSystem.change_basis", SY + ":QuantumSystem.change_basis")],
  ["all getters after a failed call"]),
P("C09", "All quantities of a system stay in one consistent basis over any history",
  "After any history of basis changes (square or rectangular, unitary or bi-orthogonal), spin conversion, anti-symmetrisation, casts, array-module switches and copies, with failed calls anywhere in between, every exposed quantity (one- and two-body elements, overlap, dipole and spin matrices, ket and bra orbitals, sizes and occupied/virtual ranges) equals what the successful operations give when applied to the original elements by their definitions. Reference energy, Fock matrix and particle density always follow from those current quantities. Operations on one client's object never change another's.",
  ["histories", "fault_sequences", "inputs"],
  "every interleaving of the operation sequences of several clients over random, grid, oscillator and DVR bases, with rejected, failed and interrupted calls in between",
  "Tests apply one basis change to h and u right after construction; histories, spin matrices, bra orbitals, bi-orthogonal changes and recovery after failures are not reached.",
  [BS, SY, GO, SP, DVR, SH], [("change_basis and spin conversion", BS), ("set_system_size", SY), ("DVR overrides", DVR)],
  ["all getters, compute_reference_energy, construct_fock_matrix, compute_particle_density"]),
P("C10", "Threads may share a system for reading under any interleaving",
  "When several threads concurrently use one system only for reading (element and orbital getters, reference energy, Fock matrix, particle density, h(t) and u(t), element transforms, copying, deriving a general-orbital system), every call under every interleaving succeeds and returns what it returns when run alone. Afterwards the system is unchanged.",
  ["schedules"],
  "every thread interleaving of 2-4 readers over spatial and general systems with and without time-dependent operators",
  "The test suite is single-threaded.",
  [BS, SY, GO, SP, OP, SH], [("copy_basis / copy_system working on the shared source", BS), ("lazy conversion of operator parameters", OP), ("lazily built bra orbitals", BS + ":BasisSet.bra_spf")],
  ["results of concurrent calls", "all getters afterwards"]),
P("C11", "The time-dependent Hamiltonian is an exact function of time and current state",
  "With a laser field, adiabatic switching or custom one-body operator installed, h(t) and u(t) equal the currently held h plus field strength times polarisation times dipole (or plus weight times operator), and the currently held u times the switching factor, for constant and callable parameters alike. This holds for every order and repetition of time points, after basis changes, operator swaps, copies, failed pulse evaluations and caller-side modification of earlier results, and for threads evaluating concurrently. Evaluating never changes the system, and without an operator the static elements are returned.",
  ["histories", "schedules", "fault_sequences"],
  "every solver step schedule (fixed, adaptive with rejected steps, backwards, repeated), interleaved with state changes, failing callbacks and concurrent evaluations",
  "No test installs a time-evolution operator.",
  [OP, SY], [("h_t / u_t of the operators", OP), ("set_time_evolution_operator", SY)],
  ["h_t, u_t, operator-kind flags, all getters"]),
P("C12", "Parallel Coulomb elements do not depend on thread count or schedule",
  "The two-dimensional Coulomb elements returned for a given number of orbitals are the same for every number of worker threads and every interleaving of the parallel loop's iterations on them. Every element is written, none is lost, and no worker observes another's intermediate values.",
  ["schedules", "configurations"],
  "every assignment of loop iterations to 1-8 workers and every interleaving of their steps",
  "Tests run the compiled loop on whatever schedule the machine happens to give.",
  [H2, CE], [("parallel loop over the first orbital index", H2 + ":_get_coulomb_elements")],
  ["get_coulomb_elements return value"]),
P("C13", "A constructed basis set depends only on its arguments, not on history",
  "Constructing any of the provided basis sets or computing their matrix elements gives the result that the same arguments give in a fresh process. This holds whatever other basis sets were constructed before or are being constructed by other threads, however often, with whichever other parameters, whether or not some construction was interrupted part-way, and even if callers modified the arrays or arguments of earlier ones. Construction does not disturb the global random state.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every sequence and thread interleaving of constructions over parameter neighbours, with interrupted constructions and modified earlier results in between",
  "Each test constructs its system once; order effects between differently parametrised systems in one process are not compared with a fresh process.",
  [H2, HO, OD, POT, DVR, BS, RB], [("construction code of every basis set", HO), ("matrix element helpers", H2)],
  ["h, u, s, dipole_moment, spf, grid of constructed sets", "numpy global random state"]),
P("C14", "Random basis sets keep their symmetries and follow the random stream alone",
  "For every random stream, every size, dimension and flag, and whatever other code draws from the generator in between, a random basis set has Hermitian one-body, overlap and dipole elements, and two-body elements symmetric under particle exchange, and stays so through spin conversion (where, if anti-symmetrised with or after the conversion, the two-body elements change sign under swapping either index pair). The elements are a function of the random stream only: the same stream gives the same set, and different draws give different elements.",
  ["inputs", "schedules", "histories"],
  "every random stream (typical, constant, extreme values) delivered through the injected array module, with concurrent consumers of the stream",
  "Tests use unseeded random sets and check only shapes and derived spin matrices.",
  [RB, BS], [("symmetrisation of random elements", RB), ("spin conversion", BS)],
  ["h, s, u, dipole_moment, nuclear_repulsion_energy"]),
P("C15", "A failed SCF solve is never passed off silently as a good RHF system",
  "If the Hartree-Fock solver behind the RHF molecule constructor stops without converging, at whatever iteration, the caller gets a warning; if it raises, the caller gets the error; if it converges, there is no such warning. Whether converged or not, the returned system is expressed in the solver's own final orbitals with electron count and nuclear repulsion of the molecule, so that for a converged solve its reference energy plus nuclear repulsion equals the solver's total energy.",
  ["fault_sequences", "inputs"],
  "every iteration at which the solver is cut off or fails, over molecules, basis sets, charges and output flags",
  "test_reference_energy runs one converging helium atom.",
  [CU], [("convergence check after the solver", CU + ":construct_pyscf_system_rhf")],
  ["warnings issued", "exceptions raised", "compute_reference_energy, n, l, nuclear_repulsion_energy"]),
# ---- pure functions of their input: not simulation targets -------------------
P("C16", "Two-dimensional Coulomb and one-body elements equal the analytic integrals",
  "For every number of orbitals and oscillator frequency, the one-body, dipole and Coulomb elements of the two-dimensional oscillator and double-well sets equal the exact integrals over their single-particle functions, with the required exchange and Hermitian symmetries.",
  ["inputs"], "all orbital counts, frequencies, masses, barriers and axes",
  "Tests compare a fixed set of elements at unit frequency with tabulated values.",
  [H2, CE, HO], [("closed-form element formulas", CE)], ["h, u, dipole_moment"]),
P("C17", "One-dimensional elements and potentials are mutually consistent",
  "For every potential and grid, each potential's derivative is the derivative of its value, the grid orbitals are orthonormal eigenfunctions, and the one- and two-body elements equal the grid integrals over them.",
  ["inputs"], "all potentials, parameters and grids",
  "Tests compare four fixed systems with stored arrays; derivatives are not tested.",
  [OD, POT, DVR], [("grid diagonalisation and quadrature", OD)], ["h, u, dipole_moment, spf, potential derivative"]),
P("C18", "Spin matrices satisfy the spin algebra in any orthonormal spin basis",
  "For every orthonormal pair of spin functions and orthonormal orbital set, the spin matrices obey the angular-momentum commutation relations and the total-spin operator has eigenvalues s(s+1).",
  ["inputs"], "all spin bases and orbital sets",
  "Tests check the default spin basis on one molecule.",
  [BS], [("Pauli matrices in a spin basis", BS)], ["spin_x, spin_y, spin_z, spin_2, spin_2_tb"]),
P("C19", "Magnetic-field oscillator reduces to and extends the zero-field spectrum",
  "For every field strength the magnetic-field oscillator lists the lowest states in energy order with correct quantum numbers and degeneracy, and at zero field equals the plain oscillator up to ordering inside a shell.",
  ["inputs"], "all field strengths and sizes",
  "One test compares u at zero field for six orbitals.",
  [H2, HO], [("state table", H2 + ":construct_dataframe")], ["h, u, dipole_moment"]),
P("C20", "Orbital index and quantum number maps are mutually inverse",
  "For every orbital index the (n, m) pair maps back to that index, and shells are listed in energy order without gaps.",
  ["inputs"], "all non-negative orbital indices",
  "Tests check a fixed table of indices.",
  [H2], [("index maps", H2 + ":get_index_p, get_indices_nm")], ["get_index_p, get_indices_nm"]),
]
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props), "properties")
