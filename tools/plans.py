"""what is run for each property and tier, and what is said about it"""


import uchecks as U


def plan(prop, tier):
    q = tier == "quick"
    P = dict(mon=[], py=[], level="exploration")
    pl = PLANS[prop]
    mult = 1 if q else pl.get("deep", 12)
    tq, tw = (150, 300) if q else (600, 850)
    for np, cases in pl.get("np", {}).items():
        P["mon"].append(dict(np=np, cases=int(cases * mult), time=tq, wall=tw))
    for np, cases in pl.get("agg", {}).items():
        # the default (aggregating) collective-I/O component
        P["mon"].append(dict(np=np, cases=int(cases * mult), **{"from": 100000}, env={"OMPI_MCA_fcoll": "default"}, time=tq, wall=tw))
    P["rule"] = pl["rule"]
    P["assumptions"] = pl.get("assumptions", [])
    P["py"] = pl.get("py", {}).get(tier, [])
    return P


# np: processes -> cases; agg: the same with Open MPI's default fcoll component
# rule: what counts as a distinct non-trivial evaluation
SAN = "AddressSanitizer + selected UBSan checks on, MPI boundary monitored"
PLANS = {
    "C01": dict(np={1: 500, 2: 500, 3: 500, 5: 300, 8: 40}, agg={3: 6},
        technique="runtime monitoring: file write/read histories on 1-8 real MPI processes against an in-memory model of the file",
        note="Decides by comparing every value returned by the real library with a model built only from the calls made. Holds for the histories generated (random partitions, orders, lists); trusts Open MPI's MPI-IO and the file system.",
        rule="one evaluation = one read call or whole-file comparison against the model; distinct = hash of the model contents, access pattern, partition and process count; trivial (empty request) excluded"),
    "C02": dict(np={1: 500, 2: 400, 3: 400}, agg={3: 4},
        technique="runtime monitoring: independent SEG-Y byte encoder/decoder as oracle over files written and read by the real library",
        note="Oracle is a second implementation of the revision 1 layout in mon/segy.cc; every byte of every file written is compared, and files it encodes are read back through the library.",
        rule="one evaluation = one file (or header block) compared byte for byte, or one foreign file decoded; distinct = hash of the file bytes"),
    "C03": dict(np={1: 150, 2: 200, 3: 200, 5: 150, 8: 50}, agg={3: 12},
        technique="runtime monitoring: byte-exact shadow file and guarded buffers around the real MPI-IO layer, with injected delays",
        note="Every buffer byte, guard zone and file byte is compared after every operation with a POSIX-side shadow; transfer limits are made small so that requests split. MPI-IO itself is trusted.",
        rule="one evaluation = one byte-layer operation on one process; distinct = hash of operation, offsets, sizes, limit and process count; zero-byte requests are trivial"),
    "C04": dict(np={1: 2000, 2: 1500, 3: 1000, 4: 300},
        py=dict(quick=U.lives(["latched", "latched_one", "c_latched", "warned"], [1, 3]), thorough=U.lives(["latched", "latched_one", "c_latched", "warned"], [1, 2, 3, 5]) * 3),
        technique="runtime monitoring with fault injection at every MPI-IO call site (PMPI), error latch compared with the failures delivered",
        note="Each MPI-IO function class is made to fail at a chosen occurrence on chosen processes; also real failures (missing files, forbidden modes), misuse, and the latch against a model. Failures MPI itself does not report are outside.",
        rule="one evaluation = one operation (or log program) judged after zero or one injected failure; distinct = operation kind, failing call class, occurrence, mode and geometry; operations without injection are trivial"),
    "C05": dict(np={1: 180, 3: 20},
        technique="runtime monitoring: exact-rational oracle for IBM and big-endian conversion, plus IBM-format files read by every access pattern",
        note="Quick: every exponent/sign with boundary and random fractions (about 10^8 patterns would be thorough's share); thorough enumerates all 2^32 patterns in both byte orders.",
        rule="one evaluation = one block of 32-bit patterns (or one IBM-format read) compared with the exact result; distinct = block id"),
    "C06": dict(np={1: 2500},
        technique="runtime monitoring: precision oracle over encode/decode of generated coordinate groups",
        note="Values cover integers, decimal fractions, limits of 32 bits and mixed magnitudes; the finest admissible scalar is computed independently.",
        rule="one evaluation = one header encoded and decoded; distinct = hash of the coordinate values; all-zero headers are trivial"),
    "C07": dict(np={1: 12000},
        technique="runtime monitoring: rule-edit and cell-store programs on real Rule/Param objects against a reference map",
        note="Programs of additions, removals, merges, stores and copies; the full cell array is compared after each step.",
        rule="one evaluation = one whole-structure comparison; distinct = hash of the program so far; empty rules are trivial"),
    "C08": dict(np={1: 600, 2: 400, 3: 400},
        technique="runtime monitoring: byte comparison of copied headers through real reads, copies and parallel writes",
        note="Random 240-byte headers are pushed through every read pattern and written again; all bytes outside individually listed parameters must be equal.",
        rule="one evaluation = one copied header set compared; distinct = hash of header bytes and rule"),
    "C09": dict(np={1: 600, 2: 500, 3: 500, 5: 350, 8: 60},
        technique="runtime monitoring: parallel sorts on 1-8 MPI processes compared with an independent stable sort, with message delays",
        note="The oracle sorts independently computed keys with std::stable_sort over the whole data set; the complete parameter record of every trace is followed through the exchange.",
        rule="one evaluation = one process's result of one sort or order check; distinct = hash of sort type, sizes per process and the resulting permutation; sorts that move nothing are trivial"),
    "C11": dict(np={1: 500, 2: 400, 3: 400, 5: 300, 8: 60},
        technique="runtime monitoring: min/max searches on 1-8 MPI processes compared with an exhaustive search of the same data",
        note="Values, second-parameter tie breaking and trace numbers are compared on every process, for raw arrays, parameter structures and sets of files.",
        rule="one evaluation = one search judged on one process; distinct = hash of the values and of the sizes per process; empty searches are trivial"),
    "C12": dict(np={1: 400, 2: 400, 3: 400, 5: 300, 8: 60},
        technique="runtime monitoring: gather search on 1-8 MPI processes compared with runs counted directly, with message delays and bounds-checked one-sided accesses",
        note="Every process reads the complete distributed list. Files of up to 4500 traces; lines over the whole 32-bit range.",
        rule="one evaluation = one process's view of one gather list; distinct = hash of the run lengths and process count; empty files are trivial"),
    "C13": dict(np={1: 2000},
        technique="runtime monitoring: partition oracle over the real decomposition functions",
        note="Exhaustive for small sizes x processes, random and near-limit for large ones.",
        rule="one evaluation = one (size, processes) pair checked for every process and sampled indices; distinct = the pair; size 0 is trivial"),
    "C14": dict(np={1: 500, 2: 1000, 3: 1000, 5: 800, 8: 100},
        technique="runtime monitoring: concurrent stores and reads of distributed vectors on 1-8 MPI processes checked against a replicated array and the set of stored values; guarded windows",
        note="Reads concurrent with stores must return a stored or previous value, undivided; window memory has poisoned guards and every one-sided access is bounds-checked at the MPI boundary.",
        rule="one evaluation = one process's history of one vector; distinct = hash of length, process count, element size and number of stores; vectors without elements are trivial"),
    "C10": dict(np={1: 400, 2: 400, 3: 400, 5: 250, 8: 40},
        technique="runtime monitoring: whole workflows (sets of files, chains of operations, sorts) on 1-8 MPI processes compared byte for byte with one trace at a time",
        note="Every output file is decoded byte by byte and matched with the input trace the independent model puts there; block sizes are reduced by the hook so that several blocks and idle processes occur. The operations themselves are decided by C17 and C18.",
        rule="one evaluation = one workflow output compared on one process count; distinct = hash of the inputs, operations and process count; empty outputs are trivial"),
    "C17": dict(np={1: 900}, deep=40,
        technique="runtime monitoring: tapers and gains of generated traces in guarded memory against their definitions in double precision",
        note="Traces lie between guards whose content differs between two runs, inside exact ASan allocations; recording ramp and gain functions check the positions and windows passed. Tolerance 2e-4 relative for single-precision sums of up to 600 samples.",
        rule="one evaluation = one trace tapered or gained and compared at every sample; distinct = hash of trace, function, ramp or window and target; all-zero traces are trivial"),
    "C18": dict(np={1: 2200}, deep=40,
        technique="runtime monitoring: filters designed and applied by the real library against the analytic Butterworth response and a double-precision forward-backward filter",
        note="Orders up to 5 (3 for band filters), corners between 4% and 44% of the sampling rate; tolerances follow from the conditioning of the coefficients, and designs too ill-conditioned for single precision are counted and skipped.",
        rule="one evaluation = one design, order or filtered block of traces compared; distinct = hash of type, order, corners, window, padding and sizes; fully ill-conditioned cases are trivial"),
    "C16": dict(np={1: 900, 2: 300, 3: 200}, deep=20,
        py=dict(quick=[(1, U.memcheck("malformed", 150))], thorough=[(1, U.memcheck("malformed", 3000, k * 10000, 800)) for k in range(4)]),
        technique="runtime monitoring: arbitrary and corrupted files opened and read under AddressSanitizer, UBSan and memcheck, with an independent bound on the number of traces",
        note="Files are generated, cut, extended and corrupted in every header field that is interpreted; every buffer is guarded, uninitialised memory is filled with patterns, and every value returned is compared with a decode of the bytes.",
        rule="one evaluation = one file opened and read, or one read request; distinct = hash of the bytes of the file and process count; empty files are trivial"),
    "C19": dict(np={1: 600, 2: 150, 3: 100}, deep=20,
        technique="runtime monitoring: character tables and text headers written and read by the real library compared with tables written from the code charts",
        note="All 256 characters in both directions; texts of any length and content in both encodings, including bytes of neither. Texts that are equally printable in both encodings are ambiguous and not judged.",
        rule="one evaluation = one character converted both ways, or one text header written or read; distinct = character, or hash of the text; empty texts are trivial"),
    "C20": dict(np={1: 400, 2: 400, 3: 400, 5: 250, 8: 40},
        technique="runtime monitoring: angle conversions and velocity model reads on 1-8 MPI processes compared with an independent conversion",
        note="Generated grids, gathers, models and bins; where rounding decides between two radon traces either is accepted. Models have at least one sample per trace.",
        rule="one evaluation = one converted file or one model read compared; distinct = hash of the grid, gathers, parameters and process count; empty reads are trivial"),
}
PLANS["C15"] = dict(np={2: 180, 3: 140, 5: 70, 8: 16}, agg={3: 5},
    technique="runtime monitoring: every MPI call of every process recorded at the PMPI boundary and checked online for matching collectives, messages and completion, under injected delays",
    note="The oracle is an MPI-call trace checker (same collective, root, sizes, on the same communicator, sent = received, no pending requests or windows) plus a progress watchdog; cases of every scenario are run with a process idle, empty or late.",
    rule="one evaluation = one case's complete MPI call trace audited on one process; distinct = scenario, parameters and process count")
PLANS["C22"] = dict(np={1: 150, 2: 200, 3: 150, 5: 80}, agg={3: 6},
    py=dict(quick=U.lives(list(U.LIFE), [1, 3]), thorough=U.lives(list(U.LIFE), [1, 2, 3, 5, 8]) * 3),
    technique="runtime monitoring: handle and communicator accounting at the PMPI boundary, whole programs with different ends and owners of MPI, concurrent work in groups of processes",
    note="Files, types, windows, communicators, requests and info objects created and freed are counted per case; groups of processes run other scenarios concurrently with all their oracles and any traffic on MPI_COMM_WORLD is reported; programs record MPI calls until exit.",
    rule="one evaluation = one program, one group run, or one case's accounting on one process; distinct = program mode and processes, or scenario and parameters")
PLANS["C21"] = dict(np={1: 2500, 2: 1500, 3: 1500, 5: 400}, agg={3: 10}, deep=15,
    py=dict(quick=U.lives(["c_plain", "c_early", "c_latched"], [1, 3]) + U.examples(12) + [(3, U.utility("createfile", 0, 3))], thorough=U.lives(["c_plain", "c_early", "c_latched"], [1, 2, 3, 5, 8]) * 2 + U.examples(400, (1, 2, 3, 4, 5, 8)) + [(n, U.utility("createfile", n, n)) for n in (1, 2, 5, 8)]),
    technique="runtime monitoring: generated programs run through the C functions and the C++ classes side by side, their observations, files and memory growth compared; whole C programs, the examples among them",
    note="Rules, parameters, files, min/max, sets, tapers, gains, sizes and decompositions with every object deleted in varying order under AddressSanitizer; growth of the allocated memory over repeated runs is compared to see leaks.",
    rule="one evaluation = one program observed through both interfaces on one process; distinct = hash of everything observed; programs without an observation are trivial")
PLANS["C23"] = dict(np={},
    py=dict(quick=U.fourds(90), thorough=U.fourds(2500)),
    technique="runtime monitoring: the 4D binning utility on 1-8 MPI processes under AddressSanitizer and a window-bounds monitor, its pairs compared with an exhaustive search by an independent oracle",
    note="Surveys with forward and reversed copies, clusters, ties and processes without traces; distances are compared with a tolerance for single precision except for integer coordinates on a line; block loops run in many rounds through a lowered memory limit.",
    rule="one evaluation = one pair of surveys binned on several process counts; distinct = hash of both surveys, limit and options; pairs of surveys with an empty survey or without comparable traces are trivial")
PLANS["C24"] = dict(np={},
    py=dict(quick=U.utilities(16, nps=(1, 2, 3, 5, 8)), thorough=U.utilities(500, nps=(1, 2, 3, 4, 5, 8))),
    technique="runtime monitoring: the utilities on 1-8 MPI processes under AddressSanitizer, their files compared byte for byte with an independent reader and generator of SEG-Y, faults injected at MPI-IO calls and the exit status judged",
    note="Options, sizes around the block limits, lopsided shares and several files; failures (missing files and directories, injected MPI-IO errors) have to be reported by the exit status.",
    rule="one evaluation = one run of a utility judged; distinct = utility, case, processes and hash of the input; empty outputs are trivial")

PLANS["C25"] = dict(np={},
    py=dict(quick=U.reports(12), thorough=U.reports(350)),
    technique="runtime monitoring: the reporting and conversion utilities on 1-8 MPI processes under AddressSanitizer, what they print and write compared with an independent reader, map projection and angle conversion, and the exit status under faults",
    note="Latitudes and longitudes from UTM are compared with Krueger's series to 2.5e-5 degrees; output of assess is compared on one process, as lines of several may interleave.",
    rule="one evaluation = one run of a utility judged; distinct = utility, case, processes and hash of the input; runs without a file to report are trivial")
