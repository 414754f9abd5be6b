"""Configuration of the checks (what to build, bounds, assumptions)."""
import lisp, ctext

A_INPUT = 'nothing is claimed for inputs outside the enumerated alphabets and bounds'
A_MODEL = 'the oracle is an independent reference model of the format and of queries (harness/model.hpp, harness/query.hpp); every model trace is replayed against the code of the working tree'
A_ASAN = 'memory safety is judged by AddressSanitizer on each enumerated input'
ASAN = dict(cflags=['-fsanitize=address'], opt=['-O1'])

REF = 'explicit-state enumeration of a bounded input space of the real code against a reference model (every case replayed on the implementation)'
HIST = 'exhaustive enumeration of bounded operation histories on the real code against a reference model'
NOTE = 'Holds for every case inside the stated bounds (exhaustive, no sampling); trusts the reference model and the compiler. Outside the bounds nothing is claimed.'

WRAPPED = ('fwrite fputc putc fputs fflush fwrite_unlocked fputc_unlocked putc_unlocked fputs_unlocked fflush_unlocked sleep usleep nanosleep access fopen fgets fclose '
           'unlink remove _ZNSi4readEPcl').split()
RT = dict(cflags=['-fsanitize=thread'], ldflags=['-Wl,--wrap=' + f for f in WRAPPED], plain=[('tsanrt.cpp', ['-O2', '-fno-builtin']), ('c16_io.cpp', ['-O2', '-fno-builtin'])],
          gen=[('c16_rt.c', ['-O1', '-fsanitize=thread', '-fno-builtin']), ('c16_rt_cxx.cpp', ['-O1', '-fsanitize=thread', '-fno-builtin'])])

LISPT = 'exhaustive enumeration of bounded inputs and operation histories: the Lisp source of the working tree is executed by an interpreter in the harness (on top of the real C library) against a reference model'
LISPN = ' The Lisp code is executed by harness/cl.hpp, an interpreter for the part of Common Lisp, CFFI and iterate it is written in, which is trusted; what the interpreter does not know is counted (not_judged) and never a violation.'
A_LISP = 'harness/cl.hpp implements the Common Lisp, CFFI and iterate operators the sources use as their manuals say'
LISP = dict(cflags=['-fsanitize=address'], hflags=['-fno-sanitize=address', '-O2'], opt=['-O1'], ldflags=['-rdynamic', '-fsanitize=address'])

PROGT = 'exhaustive enumeration of bounded programs: the instrumentation code (Lisp source of the working tree) is executed by an interpreter in the harness, the instrumented program is compiled and run, and compared with the original and with a reference execution'
PROGN = LISPN + ' The syntax trees of the software-evolution library are a model (harness/sel.hpp); every program produced is compiled and executed.'
A_PROG = [A_INPUT, A_LISP, 'harness/sel.hpp does with syntax trees what the software-evolution library does (parsing itself is not modelled: the trees are built by the harness)']

CHECKS = {
    'C01': dict(src=['c01.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all sequences of <=4 entries over 13 entries in one point; all pairs (<=2 entries) and triples (<=1 entry) of points; every format/width x single-bit and boundary patterns; all 8/16-bit values; all name lists <=4 over 5 names; counts and lengths 0..300 and around powers of two to 131072; every alignment of a record to the 4096-byte buffer',
                    thorough='as quick with <=5 entries, counts 0..600 and powers of two to 262144'),
        assumptions=[A_INPUT, A_MODEL]),
    'C02': dict(src=['c02.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all points of <=2 sizes x <=2 variables x <=2 auxiliary values; pairs of points; every format/width x boundary patterns; all 16-bit values; name lists <=4; counts 0..300 and around powers of two to 65536; all pairs of types',
                    thorough='<=3 variables, counts 0..600 and to 262144'),
        assumptions=[A_INPUT, A_MODEL]),
    'C03': dict(src=['c03.cpp'], technique='exhaustive enumeration of all cut points of all bounded traces on the real code, against a reference model', note=NOTE,
        bounds=dict(quick='every byte prefix of: traces whose last point has <=2 of 13 entries, headers of <=3 names/types, 1..8 points, traces longer than the stream buffer, every format/width', thorough='<=3 entries, 1..24 points, more long traces'),
        assumptions=[A_INPUT, A_MODEL, A_ASAN], **ASAN),
    'C04': dict(src=['c04.cpp'], technique='exhaustive enumeration of bounded mutations of traces on the real code, against a reference model, under AddressSanitizer', note=NOTE,
        bounds=dict(quick='every byte x 256 values, insertion, deletion, doubling of 5 base traces; every field x boundary values; pairs of bytes; all strings <=2 bytes; tag strings <=5; type records, references and counts at every boundary; dictionaries and traces of up to 65537 with a defect at the last place', thorough='tag strings <=7, all byte pairs of all bases, all interfaces'),
        assumptions=[A_INPUT, A_MODEL, A_ASAN], **ASAN),
    'C05': dict(src=['c05.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='every limit 0..n+2, and around 2^32 and 2^64, on traces of 0..n points and of up to 131073; every truncation and byte error after the limit; pipes whose rest never arrives', thorough='more points and tails'),
        assumptions=[A_INPUT, A_MODEL]),
    'C06': dict(src=['c06.cpp'], hang=60, replays=2, technique='exhaustive enumeration of bounded delivery schedules (chunkings and pauses) on the real code, against a reference model', note=NOTE + ' Delivery is controlled by interposing read(); timeouts are measured with generous margins.',
        bounds=dict(quick='every single cut and (short traces) every pair of cuts of three traces through a pipe, equal chunks of every size, all sequences of <=3 short-read sizes, timeouts, unopenable paths, descriptor counts for every outcome', thorough='all cut pairs of the second trace, <=4 short reads'),
        assumptions=[A_INPUT, A_MODEL, 'a pause is a state in which the reader has consumed everything written and is waiting']),
    'C07': dict(src=['c07.cpp'], technique='exhaustive enumeration of allocation histories and of the random levels of the internal skip list, on the real code, against a reference model', note=NOTE,
        bounds=dict(quick='all histories of <=4 operations over 3 addresses x all level choices; histories of 4..6 operations; all sizes; all splits over points; all address bits; histories of up to thousands of allocations in 5 orders', thorough='<=5 operations with levels, <=7 without'),
        assumptions=[A_INPUT, A_MODEL, A_ASAN], **ASAN),
    'C08': dict(src=['c08.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all points of <=3 variables over 6, all lists of <=3 free variables over the type subsets; 1..N variables x 0..5 free variables up to 70000 bindings; traces of up to 65537 points; type indices up to 131072; all traces of <=3 points; product of 8 traces x 16 free lists x predicates x soft x unique x mask x seed', thorough='<=4 variables, up to 100000 bindings'),
        assumptions=[A_INPUT, A_MODEL]),
    'C09': dict(src=['c09.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all comparisons and arithmetic operators over all pairs of a pool of boundary values of every format and width, nested arithmetic of depth 2, all formulas of bounded size, up to 20 operands with the odd one at every position and up to 65536 at selected ones, depth up to 500, references to 300 free variables', thorough='up to 40 operands'),
        assumptions=[A_INPUT, A_MODEL, 'comparisons whose operands are not representable in 50 digits are left open only within relative distance 1e-40']),
    'C10': dict(src=['c10.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all lists of <=3 soft predicates over all points of <=3 values; all orders of <=4 points; up to 65537 soft predicates; all lists of <=3 compound soft predicates over 64 points; ties', thorough='<=5 points'),
        assumptions=[A_INPUT, A_MODEL]),
    'C11': dict(src=['c11.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all traces of <=4 points over points whose bindings repeat with other values, statements, orders, names, types; each single difference; bindings of every format which agree while value, allocation and the rest of the point differ; up to 65537 repeats', thorough='<=5 points'),
        assumptions=[A_INPUT, A_MODEL]),
    'C12': dict(src=['c12.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all 3-bit masks, values and statements at 16 shifts; each of the 64 bits; all statement sequences of bounded length; seeds 1.. until every matching point was picked', thorough='all 62 shifts, up to 19 points'),
        assumptions=[A_INPUT, A_MODEL]),
    'C13': dict(src=['c13.cpp'], technique=HIST, note=NOTE + ' Each history runs in a process of its own, so process-wide caches start empty.',
        bounds=dict(quick='all histories of <=3 operations over 21 operations (queries, adds, frees, serialization, restore) on two databases; every (binding, predicate) first followed by all others; repetition; up to 16385 different predicates or values, 1025 selections or traces in one process, each asked twice; whole query suite without effects', thorough='<=4 operations'),
        assumptions=[A_INPUT, A_MODEL]),
    'C14': dict(src=['c14.cpp'], technique=HIST, note=NOTE + ' The cross-process half runs serializing and restoring in separate forked processes.',
        bounds=dict(quick='all points of <=2 entries and pairs of points, all databases of <=3 traces of 8, every format/width x boundary patterns, all 8/16-bit values, all name bytes, names with every separator, counts 0..40 and around powers of two to 65536; every field of directly built objects at all pairs of 19 boundary values; text restored in the same process, in a fresh process, and into a non-empty object; each restored database compared, queried and serialized again', thorough='<=3 entries, larger counts'),
        assumptions=[A_INPUT, A_MODEL]),
    'C15': dict(src=['c15.cpp'], technique='stateless model checking of the real code: all thread schedules up to a preemption bound under a controlled scheduler, with happens-before race detection on every execution',
        note='Every schedule of the listed thread programs with at most the stated number of preemptions is executed on the real code. Switching only at synchronization operations is sufficient because unsynchronized conflicting accesses are themselves reported. Sequentially consistent memory; accesses inside precompiled libraries are seen only where they go through memcpy, memmove, memset, istream::read or free.',
        cflags=['-fsanitize=thread'], ldflags=['-Wl,--wrap=_ZNSi4readEPcl'], plain=[('tsanrt.cpp', ['-O2', '-fno-builtin'])], hang=120,
        bounds=dict(quick='two threads: every unordered pair of 8 adds (4 good traces, empty, cut short, missing file, added points) into the same, another, or an own database, fresh or used, <=1 preemption; traces of every type; two adds per thread; three threads <=1 preemption; six pairs <=2 preemptions',
                    thorough='all pairs and targets <=2 preemptions, all triples of threads <=1, three pairs <=3'),
        assumptions=[A_INPUT, A_MODEL, 'sequentially consistent memory', 'file reads do not block']),
    'C16': dict(src=['c16.cpp'], prepare=ctext.runtime, technique='stateless model checking of the injected C code, taken from the Lisp source of the working tree: all inputs, crash points and thread schedules (up to a preemption bound) within the bounds, each trace read back with the real reader',
        note='Holds for every case inside the stated bounds. The injected code is compiled and executed; the calls the instrumenter generates for each type are produced by interpreting the Lisp functions that generate them (bin/ctext.py), which is trusted.',
        hang=120, bounds=dict(quick='C and C++; every supported type x single-bit and boundary patterns (signalling NaNs of float excepted); all 8/16-bit values; all pairs of 11 kinds in a call; statement ids at every power of two; headers of <=4 names; counts 0..80 and to 65536; up to 300 variables in a call; all pairs of buffer addresses and sizes at boundary values; blobs 0..300 and to 65536 bytes; all points of <=4 entries over 9 with a crash before every stream operation; traces of <=4 points at the edges of the stream buffer; two threads (all pairs of 6 points, <=2 preemptions), two points each, three threads (<=1)',
                    thorough='points of <=5 entries, counts to 262144, two threads <=3 preemptions, three threads <=2'),
        assumptions=[A_INPUT, A_MODEL, 'sequentially consistent memory', 'a crash leaves what was written to the file; the operating system keeps running'], **RT),
    'C17': dict(src=['c17.cpp'], technique=HIST, note=NOTE,
        bounds=dict(quick='arrays of every point shape and count; all pairs of (array, later operation) over all interface operations with arrays held, scribbled over, and freed in every order; points added from all structures of <=2 points x <=2 variables x values x signs; memory in use after each history', thorough='three-operation histories, larger counts'),
        assumptions=[A_INPUT, A_MODEL, A_ASAN], **ASAN),
    'C18': dict(src=['c18.cpp'], technique='exhaustive enumeration of all pairs and triples of a bounded universe of objects on the real code, against content equality', note=NOTE,
        bounds=dict(quick='all pairs (equality, hash) and all triples (order) of universes of up to 1024 buffer sizes, types, variables, point data, points, traces, databases, predicates and free variables, each present twice; every single-bit difference; objects used before being compared', thorough='as quick'),
        assumptions=[A_INPUT, 'content is what the reference model lists for the object']),
    'C19': dict(src=['c19.cpp'], technique=HIST, note=NOTE,
        bounds=dict(quick='all histories of <=3 operations over adds of 9 kinds of files x limits, added points, queries, serialize, restore and free on two databases; longer histories over fewer operations and of up to 300 adds; every cut of a trace between two good adds', thorough='<=4 operations'),
        assumptions=[A_INPUT, A_MODEL]),
    'C20': dict(src=['c20.cpp'], prepare=lisp.declarations, technique=REF + '; the Lisp half is a model extracted from the declarations in the working tree', note=NOTE + ' The layout rules of CFFI are modelled, not executed (no Lisp here).',
        bounds=dict(quick='every declared field x both directions x array index 0..2 x single-bit and boundary patterns; every enumerator; every function: argument count, widths, result; 97152 queries, all operators on boundary values, traces of every format and added points marshalled through the declared layouts and argument lists and compared with the reference model', thorough='as quick'),
        assumptions=[A_INPUT, A_MODEL, 'CFFI lays out structures with natural alignment and numbers enumerators from 0, as its manual says']),
    'C21': dict(src=['c21.cpp'], technique=REF, note=NOTE,
        bounds=dict(quick='all predicate trees of depth 1 with <=7 leaves and depth 2, every chain of operators, boundary integers, up to hundreds of operands and levels; the text is read back as an s-expression', thorough='wider depth-2 trees'),
        assumptions=[A_INPUT, 'the texts of floating-point constants are not compared']),
    'C24': dict(src=['c24.cpp'], prepare=ctext.runtime, technique='explicit-state exploration of all interleavings of the collector (a model of traceable.lisp) with the real setup code of instrumented programs, taken from the Lisp source of the working tree',
        note='Holds for every interleaving inside the bounds. The collector is a model of collect-test-case-traces; the setup code is compiled and executed, with sleep() made to return at once.',
        bounds=dict(quick='C and C++; 7 names x newline or not x every position of the two steps of the collector (create, write) among the first 40 calls of the program; two runs in turn, all positions among the first 11 calls of each', thorough='first 80 calls; three runs in turn'),
        assumptions=[A_INPUT, 'the collector writes the name in one step, and goes on once the file is gone'], **RT),
    'C25': dict(src=['c25.cpp'], prepare=lisp.sources, technique=LISPT, note=NOTE + LISPN,
        bounds=dict(quick='11 traces (statements with and without files, names and types differing in case, wide values, blobs) x every view; every format and width x boundary patterns; 11 traces x 16 lists of free variables x the predicate and soft predicate suite x file-id x filters x picks (at most two of the four options at once); comparisons and arithmetic over 15 leaves; all histories of <=3 of 8 kinds of additions, then looked at, stored and restored, or restricted to files; indices outside the database; repeated calls',
                    thorough='all combinations of options, all operators over all leaves, histories of <=4 additions'),
        assumptions=[A_INPUT, A_MODEL, A_LISP], **LISP),
    'C22': dict(src=['c22.cpp'], prepare=lisp.sources, technique=LISPT, note=NOTE + LISPN,
        bounds=dict(quick='all histories of <=3 of 11 kinds of additions (points, files, limits, missing, damaged, empty), each trace looked at and restricted to two files; all traces of <=2 of 8 points x 10 lists of free variables x 4 file ids x 7 filters x every pick; files of <=3 of 8 points x 3 layouts x every limit x 3 endings',
                    thorough='<=4 additions, traces of <=3 points, files of <=4 points'),
        assumptions=[A_INPUT, A_LISP, 'cartesian-without-duplicates (of software-evolution-library) is the product without repeated elements'], **LISP),
    'C26': dict(src=['c26.cpp'], prepare=lisp.collector, technique='explicit-state exploration of all interleavings of simulated instrumented programs with the collector: the Lisp source of the working tree, executed by an interpreter in the harness on top of the real C library', note=NOTE + LISPN + ' Programs, processes and files are simulated (they follow the protocol which C24 checks on the real setup code).',
        bounds=dict(quick='one run of the program with each of its 3 steps delayed by 0..19 calls of the collector, two runs with 5 delays of 0..3, three runs with 6 delays of 0..2; all suites of <=2 test cases of <=2 runs (one test case: <=3) of 7 behaviours (trace, cut, empty, dies at either point, not instrumented, hangs) x 3 delays x errors ignored or not x both kinds of database; <=3 test cases of <=3 runs x num-traces x max-trace-points x program built or there; file faults (the handshake file cannot be opened for the first 0..2 attempts, probe-file fails when the file vanishes) x interleavings; a program that cannot be built x every restart',
                    thorough='delays of 0..39, 0..5, 0..3; more delays for the behaviours'),
        assumptions=[A_LISP, 'programs follow the handshake as in C24; a pipe that nobody opens for writing is given up after the timeout (C06)', 'with-temporary-file, with-temporary-fifo, start-test and finish-test of the libraries do what their documentation says'], **LISP),
    'C23': dict(src=['c23.cpp'], prepare=lisp.instrumenter, hang=120, technique=PROGT, note=NOTE + PROGN,
        bounds=dict(quick='every function body of <=2 statements over 28 kinds (assignments, declarations, all control statements, labels, goto, macros, #if, #include) x 15 option sets, of 3 statements x 3, of 4 nested if/else/labels x every subset of statements left out; a declaration of each of 37 types x 8 option sets; destinations that cannot be opened; every body of <=3 statements with a call that ends the process, 5 ways of ending it', thorough='3 statements x 6 option sets, of 3 over 10 kinds x every subset left out, 4 over 8 kinds x 4, 5 over 6 kinds x 2'),
        assumptions=A_PROG),
    'C27': dict(src=['c27.cpp'], prepare=lisp.instrumenter, hang=120, technique=PROGT, note=NOTE + PROGN,
        bounds=dict(quick='the programs of C23 (all bodies of <=2 statements x 15 option sets, of 3 x 3, nested if/else/labels of 4 x every subset left out, all types, all ends), every point and every recorded variable compared; 10 destinations of the trace', thorough='as C23 thorough'),
        assumptions=A_PROG),
    'C28': dict(src=['c28.cpp'], prepare=lisp.instrumenter, hang=120, technique='exhaustive enumeration of bounded programs: the Lisp source of the working tree, executed by an interpreter in the harness, applied forth and back', note=NOTE + PROGN,
        bounds=dict(quick='the programs of C23; files with comments, errors and macros first or last, with and without main x bodies of <=2 statements', thorough='as C23 thorough'),
        assumptions=A_PROG),
    'C29': dict(src=['c29.cpp'], prepare=lisp.instrumenter, hang=120, technique='stateless model checking of the Lisp source of the working tree, executed by an interpreter in the harness: all schedules, up to a preemption bound, of the threads that instrument the files of a project; each outcome compiled, run and its trace compared with a reference execution', note=NOTE + PROGN,
        bounds=dict(quick='projects of 1..2 files and main at every place x equal, different and same-but-for-case names x types x 4 option sets x one or several threads, then uninstrumented; projects with two mains in every order; two files in parallel: all schedules with <=2 preemptions at accesses to what the files share', thorough='1..3 files, 6 option sets, three threads'),
        assumptions=A_PROG + ['a thread can be preempted at accesses to hash tables and slots of shared objects and at locks; synchronized excludes other threads']),
    'C30': dict(src=['c30.cpp'], prepare=lisp.instrumenter, hang=120, technique='exhaustive enumeration of bounded types: the Lisp source of the working tree, executed by an interpreter in the harness, applied forth and back', note=NOTE + PROGN,
        bounds=dict(quick='22 base types x 11 combinations of qualifiers and storage classes x 0..3 pointers x 7 lists of dimensions x C and C++', thorough='as quick'),
        assumptions=A_PROG),
}

NOT_APPLICABLE = {}
