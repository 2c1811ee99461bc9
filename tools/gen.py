#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (their texts live here; what is claimed follows props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
T = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None, observe=None):
    T.append(dict(id=id, note=note, na=na, p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {})))))
S = "src/"
prop("C01", "Point counts agree with the definition",
  "For every hyperelliptic equation Y^2 = f(X) over F_q and every extension F_{q^k}, the counted numbers of unramified and ramified points equal what the definition of the curve gives. This includes the point(s) at infinity, x = 0, vanishing coefficients and values of f that cancel in the middle of the evaluation.",
  ["inputs"], "every coefficient vector (all exponents of all coefficients, leading one non-zero), for each listed q, k and degree",
  "tests count a few dozen fixed curves and some small enumerations; a wrong table index or a carry that is only hit for rare coefficient patterns over larger fields is not among them",
  [S+"curve.cc", S+"reduction_table.cc"], [("evaluation in exponent representation with incrementation and exponent reduction tables", S+"curve.cc count_cpu"), ("points at 0 and infinity", S+"curve.cc count")],
  "bounded: all polynomials of the listed degrees over the listed fields at once; oracle is an independent finite field written in the harness")
prop("C02", "Field tables describe the field and share one generator",
  "For every prime power, the table of field elements lists every element exactly once, with indices multiplicative logarithms to one generator and zero last; the tables used for counting express addition of one and reduction of exponents for that same generator. Representatives of the classes modulo n-th powers hit every class exactly once. This must also hold when the field library offers a modulus whose variable is no generator and hands out arbitrary candidates instead.",
  ["inputs", "configurations"], "every element and index; every sequence of generator candidates up to the bound and every modulus the library may choose",
  "all tests run over fields with Conway polynomials, where the first candidate is already a generator; the search loop never runs",
  [S+"fq_element_table.cc", S+"reduction_table.cc"], [("search for a generator", S+"fq_element_table.cc constructor; reduction_table.cc compute_incrementation_table"), ("coset representatives", S+"fq_element_table.cc power_coset_representatives")],
  "bounded by the listed fields; generator candidates are symbolic, up to the listed number of draws, the last draw being a generator")
prop("C03", "All implementations of counting agree",
  "The table-based count, the direct count with polynomial representation and the direct count with Zech logarithms return the same numbers for the same curve over the same extension.",
  ["inputs"], "every coefficient vector over the listed fields, degrees and extensions",
  "tests compare the implementations on a handful of curves",
  [S+"curve.cc"], [("three counting loops", S+"curve.cc count_cpu, count_naive_nmod, count_naive_zech")],
  "bounded differential check; FLINT arithmetic is modelled in the harness runtime, replay uses the real library")
prop("C04", "Packages partition the enumeration",
  "However the enumeration of coefficient vectors is cut into packages, every vector of the product set lies in exactly one package, no package contains a vector outside of it, no package is empty or larger than the package size, and walking through a package visits each of its vectors exactly once. The enumeration ends.",
  ["inputs", "configurations"], "every product of intervals, sets and dependent sets of the listed shapes, every interval position, every package size and every vector",
  "tests fix a few bounds and package sizes that mostly divide evenly",
  [S+"block_iterator.cc"], [("step sizes from the package size, clamped at the upper bound", S+"block_iterator.cc initialize_blocks, as_block, as_block_enumerator"), ("odometer", S+"block_iterator.cc step_")],
  "bounded by number of coordinates and extents; positions, package size and the element looked for are solver variables")
prop("C05", "Enumerated curves with multiplicities count every polynomial once",
  "For every polynomial of degree 2g+1 or 2g+2 over F_q (only 2g+1 with a marked point), the enumerated representatives of its class under affine substitution and scaling, weighted with twice their multiplicity, add up to the number of polynomials in that class. No curve is enumerated twice and the package size does not change what is enumerated.",
  ["inputs", "configurations"], "every polynomial over the listed fields and genera, including p dividing the degree and p greater than the degree; every package size listed",
  "tests compare with reference data of three small moduli problems with p > degree or one fixed genus; other residue cases of p and degree, and other support patterns, have no reference",
  [S+"curve_iterator.cc"], [("choice of representatives", S+"curve_iterator.cc constructor"), ("orbit sizes", S+"curve_iterator.cc multiplicity")],
  "bounded by the listed q and g; the low coefficients of the polynomial stay symbolic, the high ones are split into cases by the solver")
prop("C06", "Registered curves are stored with their twists and nothing is lost",
  "After any sequence of curves has been registered and flushed from any number of worker stores, the data stored for each invariant is the sum of multiplicities of all registered curves with that invariant plus those of all registered curves whose quadratic twist has it. The twisted invariant is the invariant of the actual quadratic twist.",
  ["inputs", "histories"], "every sequence of up to the listed number of curves with arbitrary point counts, distributed over stores in every way; every curve and its twist over the listed fields",
  "tests compare aggregated totals of complete small enumerations, where symmetric mistakes cancel",
  [S+"store/store.cc", S+"store/curve_data.cc", S+"store/store_data.hh"], [("insertion under key and twisted key", S+"store/store.cc register_curve"), ("merge into the shared store", S+"store/store.cc flush_to_static_store"), ("twist", S+"store/curve_data.cc twist")],
  "bounded by the length of the sequence and range of the invariants")
prop("C07", "Stores and records survive being written and read back",
  "Whatever set of finished blocks and whatever table of counts is written as text, reading that text yields the same blocks and the same table, neither fewer nor more entries.",
  ["inputs"], "every record and store of the listed sizes: arbitrary bounds, ramification types, signed offsets, counts",
  "no test reads back what was written except through fixed reference tables",
  [S+"store/file_store.cc", S+"store/store.cc", S+"store/curve_data.cc", S+"store/store_data.cc"], [("text format", S+"store/file_store.cc insert, extract; store/store.cc insert, extract; store/curve_data.cc operator<<, constructor from string")],
  "bounded by number of entries and number of digits")
prop("C08", "Merging is the union of records and the sum of counts",
  "Merging a directory of result files yields exactly the union of all recorded blocks and, for every invariant, the sum of the counts over all stores that belong to a record; files that are no record are not counted, and a record without its store is reported without output being produced. Merging merged files gives the same totals.",
  ["inputs", "histories"], "every directory content of up to the listed number of files with arbitrary counts, overlapping invariants, orphans and foreign files",
  "the merger has no tests at all",
  [S+"executables/merger.cc", S+"store/store.cc", S+"store/file_store.cc"], [("merge", S+"executables/merger.cc merge")],
  "bounded by number of files and entries; the file system is modelled, replay uses the real one in a scratch directory")
prop("C09", "A killed run never leaves a record without its complete store",
  "If the process is killed at any moment while results are saved, then afterwards every block that is found recorded has all of its data in the store file next to the record, and only blocks that were finished are recorded. Restarting and merging therefore counts every block exactly once.",
  ["crash_points", "inputs"], "every point between (and inside) file system operations of the save, every torn write length class, any records and stores",
  "tests never interrupt a run",
  [S+"store/file_store.cc"], [("the record is the witness and written last", S+"store/file_store.cc save")],
  "crash model: process kill, so completed writes persist in order; a write may be cut at 0, half or all but one byte")
prop("C10", "A failed write never leaves a record that vouches for missing data",
  "If writing the results fails at any point (device full, file cannot be created), no record remains that claims blocks whose data is not completely in the store next to it.",
  ["fault_sequences", "inputs"], "every operation of the save failing, transiently or persistently, with partial effect or none",
  "tests never inject write errors",
  [S+"store/file_store.cc"], [("order of writing and error checks", S+"store/file_store.cc save")],
  "fault model: create or write fails with ENOSPC once or from then on, short writes of half the data")
prop("C11", "Every assigned block is computed exactly once under every schedule",
  "Whatever the interleaving of the assigning thread and the worker threads, every assigned block is computed exactly once and reported finished exactly once, the worker becomes available again, shutting down returns, and no wake-up is lost, no lock is taken in a cycle and no data is accessed unsynchronised.",
  ["schedules"], "all interleavings of the listed programs (threads, blocks, operations) up to the listed number of deviations from the default schedule, with spurious wake-ups",
  "the threaded test runs one schedule per execution and would hang only rarely",
  [S+"threaded/thread.cc", S+"threaded/thread_pool.cc"], [("block queue and condition variable", S+"threaded/thread.cc main_thread, assign, shutdown"), ("ready, idle and busy threads", S+"threaded/thread_pool.cc")],
  "delay-bounded symbolic scheduling of the real code; data races by happens-before; replayed by a scheduler that enforces the interleaving on the real binary")
prop("C12", "Runs and restarts compute every block once and save it to its own place",
  "A run over several moduli problems computes exactly the blocks not yet recorded in the result directory of that problem, saves the results of each problem only in that directory together with the blocks they come from, and an interrupted and resumed run ends with the same totals as an uninterrupted one.",
  ["histories", "configurations", "schedules"], "every subset of blocks already recorded, every number of workers and moduli problems listed, every save point",
  "tests run a single problem from scratch in a fresh directory",
  [S+"worker_pool/standalone.cc", S+"store/file_store.cc", S+"threaded/thread_pool.cc"], [("skipping recorded blocks", S+"worker_pool/standalone.cc assign"), ("waiting and saving before the configuration changes", S+"worker_pool/standalone.cc update_config and destructor")],
  "bounded by number of blocks, workers and problems")
prop("C13", "Configurations are read as documented and round-trip",
  "Every documented configuration is accepted with the documented defaults, encoding a configuration and decoding it again yields the same configuration, incomplete ones are rejected, and a configuration is verified as usable exactly if all its parameters are positive and the result directory exists or can be created.",
  ["configurations", "inputs"], "every combination of present and absent keys and every value of the parameters",
  "there is no test for configuration files; the documented example without the optional key was never run",
  [S+"config/config_node.cc", S+"config/config_node.hh"], [("decoding with defaults", S+"config/config_node.cc convert::decode"), ("verification", S+"config/config_node.hh verify")],
  "the YAML library is modelled; replay uses the real one")
prop("C14", "Messages between processes arrive as they were sent",
  "Configurations, blocks, lists of blocks and pairs of record and store text that are serialised for another process are deserialised to equal values.",
  ["inputs"], "all values of the fields; lists up to the listed length",
  "the existing messaging test sends a few fixed iterators",
  [S+"config/config_node.hh", S+"utils/serialization_tuple.hh"], [("serialisation", S+"config/config_node.hh serialize; utils/serialization_tuple.hh")],
  "the archive is modelled as a sequence of values; replay uses the real boost archives")
prop("C15", "Master and worker processes together compute every block once",
  "With any number of processes and threads per process, in whatever order messages are exchanged and blocks finish, every block is assigned to exactly one idle worker, computed with the configuration it belongs to, reported finished once and saved once, all processes end, and no process waits for a message that is never sent.",
  ["schedules", "histories"], "all interleavings of the listed programs (processes, threads, blocks, configurations) up to the listed number of deviations",
  "MPI is not run by the tests",
  [S+"worker_pool/mpi.cc", S+"worker_pool/mpi_worker.cc"], [("request and reply protocol", S+"worker_pool/mpi.cc; mpi_worker.cc")],
  "MPI is modelled by ordered mailboxes between threads that run the real master and worker loops")
prop("C16", "Ramification types are the degrees of the factors",
  "For every squarefree right hand side, the reported ramification type is the sorted list of degrees of its irreducible factors, plus one for the point at infinity if the degree is odd, no matter over which extensions points have been counted before.",
  ["inputs", "histories"], "every factorisation type of the listed degrees and every set of extensions counted",
  "tests check the ramification of enumerations counted up to the genus only",
  [S+"curve.cc"], [("inference from ramified points, else factorisation", S+"curve.cc ramification_type")],
  "the factorisation of the library is taken as correct; replay constructs a polynomial with that factorisation")
prop("C17", "Hasse-Weil offsets are q^k + 1 minus the number of points",
  "For every set of counted extensions, the reported offsets are q^k + 1 minus the total number of points, in order of k, for exactly the uninterrupted range of extensions that have been counted.",
  ["inputs", "histories"], "every subset of extensions counted, arbitrary point counts, base fields of prime and prime power order",
  "tests see only curves counted up to the genus over prime fields",
  [S+"curve.cc"], [("offsets", S+"curve.cc hasse_weil_offsets, max_prime_exponent, number_of_points")],
  "bounded by number of extensions")
prop("C18", "Counting a single curve uses the curve that was asked for",
  "For every prime field and every list of integer coefficients, counting a single curve works with the polynomial whose coefficients are those integers modulo p, and all selectable implementations report the same.",
  ["inputs"], "all 32 bit coefficients, listed primes and lengths",
  "tests call it with reduced coefficients over few primes",
  [S+"single_curve_fp.cc", S+"executables/single.cc"], [("conversion of coefficients to exponents", S+"single_curve_fp.cc")],
  "bounded by the listed primes and lengths")
prop("C19", "A worker contributes exactly the squarefree curves of its block",
  "Computing a block adds to the results, for every coefficient vector of the block with squarefree right hand side, its multiplicity under its invariant and its twist's, counted over exactly the configured extensions, and nothing for vectors that are not squarefree.",
  ["inputs", "configurations"], "every block of the listed shape and every outcome of the squarefreeness of its members",
  "tests compare totals of full enumerations only",
  [S+"threaded/thread.cc"], [("loop over the block", S+"threaded/thread.cc main_thread"), ("tables for the extensions", S+"threaded/thread.cc update_config")],
  "bounded by the size of the block")
prop("C20", "Counts are exact however large they grow",
  "Adding, copying, storing and reading counts is exact for arbitrarily large counts, and copies are independent of each other.",
  ["inputs", "histories"], "all sequences of the listed operations on counts of up to 128 bits",
  "counts in the tests stay below 2^62, where the representation is a plain machine word",
  [S+"store/store_data.hh", S+"store/store_data.cc"], [("big integers with value semantics", S+"store/store_data.hh ValueType")],
  "FLINT integers are modelled with inline and heap representation up to 128 bits; replay uses the real library under AddressSanitizer")
prop("C21", "The command line runs what the configuration file says",
  "The threaded program processes every problem of the configuration file in order, with its own parameters and its own result directory below the output path, rejects unusable invocations and configurations with an error exit before touching other results, and ends with status 0 when everything is done.",
  ["configurations", "inputs"], "all combinations of presence and type of the listed arguments, keys and files; problems with symbolic parameters within the bounds",
  "the executables are not run by the tests",
  [S+"executables/threaded.cc", S+"config/config_node.hh", S+"worker_pool/standalone.cc"], [("main program", S+"executables/threaded.cc main")],
  "command line, YAML and file system are modelled; replay uses the real libraries")
prop("C22", "The OpenCL kernels count what the CPU path counts",
  "The device code that evaluates the polynomial at every point and reduces the results yields, for every polynomial and every work group size, the same numbers as the CPU implementation.",
  ["inputs", "configurations"], "every coefficient vector over the listed fields and every work group size listed",
  "no OpenCL device is present where the tests run",
  [S+"opencl/evaluation.cl", S+"opencl/reduction.cl"], [("evaluation kernel", S+"opencl/evaluation.cl"), ("reduction kernel", S+"opencl/reduction.cl")],
  "the kernels are compiled as C for the host, work items run one after the other")
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for t in T: f.write(json.dumps(t["p"]) + "\n")
    checks = [dict(property=t["id"], quick_cmd="python3 check.py %s quick" % t["id"], thorough_cmd="python3 check.py %s thorough" % t["id"],
        technique=PROPS[t["id"]].get("technique", "symbolic execution of the compiled code (LLVM IR), assertions decided by Z3, counterexamples replayed natively"),
        level=PROPS[t["id"]].get("level", "model_checking"), level_note=t["note"]) for t in T if t["id"] in PROPS]
    na = [dict(property=t["id"], reason=t["na"] or "no check has been built for it yet") for t in T if t["id"] not in PROPS]
    json.dump(dict(version=1, setup_cmd="sh ./setup.sh", hooks=dict(guard="HYCU_VERIF", enable="no hooks are needed: the checks compile the unmodified sources", source_commits=[]), checks=checks, not_applicable=na,
        notes="One engine (engine/), one driver (check.py), harnesses in harness/, bounds in props.py; see DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
