#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the statements)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m.strip(),where=files[0]) for m in mech.split(', ')])))

p("C01","Parallel file writes and reads round-trip exactly",
"Trace samples and trace-header parameters written to a SEG-Y file through the file API - contiguously or at listed trace numbers, with or without parameters, in one call or many, by any number of processes - are exactly what a later read of those trace numbers returns (samples bit for bit, integer header values exactly, coordinates to the precision of the header's scalar), whether read contiguously, by ascending list or by unordered list with repeats, on any number of processes. The number of traces, samples per trace and sample interval written are also read back. The caller's sample buffer is unchanged by a write, memory outside the requested range is unchanged by a read, and traces or headers that were not written are not altered. A contiguous read that extends beyond the last trace yields the traces that exist.",
["inputs","histories","configurations"],
"for all file sizes (including empty and single-trace files and traces without samples), all partitions of the traces over processes and calls, all orders of the calls, all offset lists, all process counts at write and at read time",
"The tests write a few fixed files with one process and one access pattern, against values produced by the same formula; the quantifier is over partitions, orders, offset lists and process counts.",
["src/ReadSEGY.cc","src/WriteSEGY.cc","src/ObjectSEGY.cc","src/DataMPIIO.cc","src/ReadDirect.cc","src/WriteDirect.cc"],
"WriteSEGY/ReadSEGY translate trace numbers to blocks, ObjectSEGY to byte offsets, DataMPIIO to MPI-IO views")

p("C02","Files on disk are conforming SEG-Y",
"A file written by the library has, byte for byte, the layout the SEG-Y revision 1 format prescribes: a 3600-byte file header (3200-byte text, then big-endian binary fields holding sample count, interval and format code), then per trace a 240-byte header followed by big-endian IEEE samples, with each parameter stored big-endian at its standard byte location and the scaled coordinates multiplied by one power-of-ten scalar stored in the header; the file ends exactly after the last trace. Conversely a conforming file produced by another program is decoded to the same values by the library, including positive, negative and zero scalars, both sample formats and both text encodings.",
["inputs","configurations"],
"for all parameter values, sample counts, intervals, trace counts and rules mapping parameters to header locations, for files produced by the library and by an independent encoder",
"The tests compare the library with itself or with fixed constants for a few header fields; nothing decodes the bytes independently over the value space.",
["src/segy_utils.cc","src/ReadSEGY.cc","src/WriteSEGY.cc","src/ObjectSEGY.cc","src/Rule.cc","include/ExSeisDat/utils/encoding/number_encoding.hh"],
"insertParam/extractParam, calcNt/calcHO header packing, object-layer offsets")

p("C03","Byte I/O layer moves exactly the requested bytes",
"Every read of the byte layer - contiguous, equally spaced blocks, or blocks at listed offsets - returns exactly the bytes of the file at those positions, and every write changes exactly those positions and no others, for every process at once and independently of how a request is split into transfers by the configured maximum transfer size (at least one block). Buffers are written only within the requested size, and the reported file size is the true size.",
["inputs","configurations","schedules"],
"for all offsets, sizes, block sizes, strides, lists (ascending, adjacent, with gaps, empty on some processes), transfer-size limits and process counts",
"The tests use the default 2 GB transfer limit, so the code splitting requests runs only for a few sizes on one process.",
["src/DataMPIIO.cc","include/ExSeisDat/PIOL/DataMPIIO.hh"],
"contigIO/iol/readv/writev chunk loops, strided and indexed file views")

p("C04","I/O failures and misuse are always reported",
"If opening a file, or any read, write, resize or size query performed on behalf of a caller fails on a process, that process records an error: its error check then terminates it with a failure status instead of letting it continue as if the operation succeeded. A number of samples or a sample interval that the format cannot hold is reported in the same way. Conversely, no error is recorded and the error check does nothing when every operation succeeded. Once an error is recorded it stays until it is checked, whatever its verbosity and whatever is logged after it.",
["fault_sequences","inputs"],
"for every I/O call site and every position in the sequence of calls at which the MPI-IO layer may report an error, all file modes and access patterns, and all sequences of log records",
"The tests only open missing files; no test makes an individual transfer, view or resize call fail.",
["src/DataMPIIO.cc","src/Logger.cc","src/ExSeisPIOL.cc","src/ReadSEGY.cc"],
"printErr after every MPI_File call, Logger::record error latch, ExSeisPIOL::isErr")

p("C05","IBM and big-endian numbers decode exactly",
"Every 32-bit IBM hexadecimal float, in either byte order, converts to the nearest IEEE single (round half to even, subnormals included, signed infinity on overflow, zero for zero fraction), and reading the traces of a file whose format code is IBM yields exactly these values. Big-endian conversion of 16- and 32-bit integers and floats is the exact inverse of encoding for every bit pattern.",
["inputs"],
"for all 2^32 bit patterns, both byte orders, and every read access pattern of an IBM-format file",
"The tests check a small number of IBM values and never read an IBM-format trace with known contents.",
["src/utils/encoding/number_encoding.cc","src/ReadSEGY.cc","include/ExSeisDat/utils/encoding/number_encoding.hh"],
"from_IBM / to_float / rshift_with_rounding, readTraceT format conversion")

p("C06","Scaled coordinates keep the best precision the header allows",
"Encoding a trace header's coordinates and decoding them again returns each coordinate to within half a unit of the scaling factor stored in that header (plus floating-point rounding), for every coordinate in the header. That factor is shared by the coordinates that use it and is a power of ten the format permits (0.0001 to 10000), no coarser than the finest with which all of them still fit in 32 bits unless they need fewer digits, so no storable coordinate wraps or overflows. Re-encoding decoded coordinates gives the same decoded values again.",
["inputs"],
"for all combinations of coordinate values representable in the header (integers, fractions, negative, near the 32-bit limits, mixed magnitudes) and all groups of coordinates sharing a scalar",
"The tests encode a handful of coordinates; the scalar choice depends on the digits of all coordinates jointly.",
["src/segy_utils.cc"],
"find_scalar, parse_scalar, insertParam scalar merging")

p("C07","Parameter sets behave like independent typed cells",
"A parameter structure made from a rule behaves like an array of independent cells, one per entry and per trace: reading a cell returns the last value stored there (converted to its type), storing never changes another cell, copying a trace's parameters copies every cell the two structures share, and equality holds exactly when all cells are equal. This stays true for rules built by any sequence of additions, removals and merges of entries, whose reported header extent covers exactly the header bytes of its entries.",
["programs","inputs"],
"for all sequences of rule edits (add, remove, merge, explicit locations), all sequences of cell stores and copies, all sizes",
"The tests use a few fixed rules; renumbering after removal and merging is reached by one or two sequences.",
["src/Rule.cc","src/Param.cc","src/param_utils.cc","include/ExSeisDat/PIOL/Rule.hh","include/ExSeisDat/PIOL/RuleEntry.hh"],
"Rule::addRule/rmRule renumbering, param_utils getPrm/setPrm/cpyPrm, Rule::extent")

p("C08","Copied trace headers are preserved byte for byte",
"When parameters are read with the copy-header entry and written out again, all 240 bytes of each trace header reach the output unchanged except the bytes of parameters the rule also lists individually, which carry those parameters' current values; this holds through reads by any access pattern, copies between parameter structures, sorting and parallel output.",
["inputs","histories"],
"for all header byte contents, rules combining the copy entry with others, access patterns and process counts",
"The tests copy one or two headers on one process.",
["src/segy_utils.cc","src/param_utils.cc","src/ReadSEGY.cc","src/Flow/Set.cc"],
"PIOL_META_COPY storage in Param::c, insertParam overlay, readTraceNonMonotonic reordering")

p("C09","Parallel sort yields the globally ordered permutation",
"Sorting traces over any number of processes terminates and yields, in process order, a permutation of all trace numbers in which the traces are ordered by the requested comparison with ties in original trace order, so the result is the same for every process count and partition. The order checks of the processes, over any partition of the file, all succeed exactly when the file's traces are so ordered. The inverse lookup maps every position back to its original place.",
["inputs","configurations","schedules"],
"for all key values (ties, reversed, random, constant), all sort types and user comparisons, all process counts and local sizes including processes with few or no traces",
"The tests sort on one process, so the exchange between neighbouring processes never runs.",
["src/sort.cc","include/ExSeisDat/PIOL/operations/sort.hh"],
"sortP neighbour exchange and termination, comparators, second sort by original index")

p("C10","Workflow output conserves traces and applies each operation once",
"Outputting a set of input files writes every input trace exactly once to the output file of its sample-count/interval group: in input order without a sort, or in the globally sorted order of the last sort requested, wherever it was requested among the operations on traces (equal traces in the order of their numbers in their files, then of the files), with samples equal to the requested sequence of operations applied to that trace once and with its own header. The names of the files written are returned. A further output of the same set again starts from the input traces, keeps the order of the last sort, and applies only what was requested since the output before. The result is the same for every process count and block size, and the input files are not modified.",
["programs","inputs","configurations"],
"for all collections of input files (different lengths, sample counts, intervals), all chains of trace operations and sorts, all process counts",
"The tests use mock files and a single process; multi-file and multi-process pipelines and block boundaries are not reached.",
["src/Flow/Set.cc","src/Flow/Cache.cc","include/ExSeisDat/Flow/Set.hh"],
"Set::add grouping, calcFunc/startSingle/calcFuncS pipelines, Cache parameter and trace caches")

p("C11","Minimum and maximum search is exact for any distribution",
"The coordinate min/max search returns the true minimum and maximum of both requested parameters over all traces of all processes, together with the number of a trace attaining each, on every process identically. If several traces tie in the requested parameter, a minimum goes to the trace with the smallest second parameter and then the lowest number, a maximum to the greatest second parameter and then the highest number. The result is independent of how traces are distributed, including processes without traces, for coordinates of any sign.",
["inputs","configurations"],
"for all coordinate values including all-negative, equal and large ones, all distributions over processes, raw arrays, parameter structures and sets of files",
"The tests run on one process with positive random values.",
["src/minmax.cc","include/ExSeisDat/PIOL/operations/minmax.h","src/Flow/Set.cc"],
"getCoordMinMax gather/reduction, Set::getMinMax combination over files")

p("C12","Gather boundaries are found exactly",
"The gather search over a file reports each maximal run of consecutive traces with the same inline and crossline exactly once, in file order, with its correct length and line numbers, so that the lengths add up to the number of traces; the same list results for every number of processes.",
["inputs","configurations"],
"for all sequences of inline/crossline values, gather lengths (single traces, one gather longer than several processes' shares, repeats of earlier line numbers), process counts",
"No test runs the gather search with more than one process.",
["src/gather.cc","include/ExSeisDat/PIOL/operations/gather.hh"],
"getGathers boundary exchange between processes, distributed result vector")

p("C13","Block decomposition partitions the data exactly",
"For every global size and process count the block decomposition assigns each index to exactly one process: the local ranges are contiguous, in process order, disjoint and cover the global range, and differ in size by at most one; and looking up the owner and local position of a global index agrees with the ranges.",
["inputs"],
"for all global sizes, process counts and process numbers, including fewer elements than processes and very large sizes",
"The tests compute a few decompositions by the same formula.",
["src/utils/decomposition/block_decomposition.cc","include/ExSeisDat/utils/decomposition/block_decomposition.h"],
"block_decomposition and block_decomposition_location arithmetic")

p("C14","Distributed vector behaves as one shared array",
"A distributed vector of any length on any number of processes behaves as a single array: after a store to an index completes and the processes synchronise, every process reads that value at that index and no other element or memory is changed, and an access outside the vector changes no element and no other memory. Concurrent stores and reads of different elements do not interfere, and a read concurrent with stores to the same element returns one of the values stored or the previous one.",
["histories","schedules","inputs"],
"for all lengths (including fewer elements than processes), element types, interleavings of stores and reads by different processes",
"No test exercises the vector on several processes.",
["include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh","include/ExSeisDat/utils/Distributed_vector.hh"],
"MPI one-sided windows, owner lookup through block_decomposition_location")

p("C15","Collective operations stay matched and complete",
"Every operation the processes perform together completes on all of them, whatever the amount of data each has - unequal shares, nothing on some processes, more transfers on one than another - and all processes issue the same sequence of collective communication and I/O calls on each communicator or file. Message-passing is fully matched: no message is left unreceived and no request uncompleted.",
["schedules","inputs","configurations"],
"for all distributions of sizes over processes, relative process speeds, transfer-size limits and operations (data, file, sort, min/max, gathers, workflows)",
"All tests run as a single process, where a mismatch cannot be seen.",
["src/DataMPIIO.cc","src/CommunicatorMPI.cc","src/sort.cc","src/minmax.cc","src/gather.cc","src/Flow/Set.cc"],
"equalised transfer counts in contigIO/iol/readv, extra empty rounds in Set, neighbour messages in sort")

p("C16","Malformed input never causes invalid memory access",
"Opening any file as SEG-Y and reading its text, sizes, parameters and traces within the reported number of traces never reads or writes memory out of bounds, uses uninitialised or freed memory, or performs undefined arithmetic, whatever the bytes and length of the file: it either returns values or reports an error. A reported number of traces never exceeds what the file size can hold.",
["inputs"],
"for all byte contents and lengths of files: truncated at any point, arbitrary header fields, zero or maximal sample counts, all format codes and scalars",
"The tests read well-formed files only.",
["src/ReadSEGY.cc","src/ObjectSEGY.cc","src/segy_utils.cc","src/DataMPIIO.cc"],
"ReadSEGY::Init header parsing, getNt, extractParam, format conversion")

p("C17","Taper and gain control compute their definitions within bounds",
"Tapering multiplies the first and last samples of the non-muted part of a trace by the ramp (0 before the first sample, 1 at the ramp's end, ramps cut to the non-muted part) and leaves every other sample and the muted zeros untouched. Automatic gain control multiplies each sample by the target amplitude over the statistic (RMS, triangularly weighted RMS or mean absolute value, each over the count of non-zero samples, or median) of its odd-sized window clipped to the trace, all computed from the unmodified trace; a window whose statistic is zero leaves its sample unchanged. Neither reads or writes outside the trace, through the C++ and the C interface alike.",
["inputs"],
"for all trace lengths, samples (zeros, negative, muted starts), window and ramp lengths that fit the trace, ramp and gain functions",
"The tests apply a few lengths to constant or simple traces.",
["src/utils/signal_processing/taper.cc","src/utils/signal_processing/Taper_function.cc","src/utils/signal_processing/AGC.cc","src/utils/signal_processing/Gain_function.cc"],
"taper mute handling and ramps, AGC window clipping, gain statistics")

p("C18","Temporal filters match the Butterworth design",
"The coefficients built for a low-pass, high-pass, band-pass or band-stop filter give the Butterworth magnitude response of the requested order: full gain in the pass band, 1/sqrt(2) at each corner frequency, monotone decay in the stop band, for a stable filter; without a given order the smallest that loses at most 3 dB at the pass corners and at least 20 dB at the stop corners is used. Filtering in time is linear and without phase shift (forward and backward over the window extended by the chosen padding), and filtering in the frequency domain multiplies each spectral component by the gain. Both change only the samples of the requested window, which never leaves the trace, and treat every trace independently of the others.",
["inputs"],
"for all filter types, orders, corner and sampling frequencies, padding modes, windows, trace lengths and contents",
"The tests compare one design per type and one or two traces with stored numbers.",
["src/temporalfilter.cc","include/ExSeisDat/PIOL/operations/temporalfilter.hh"],
"makeFilter pole/zero transforms, expandPoly, filterTime forward-backward IIR, windowing")

p("C19","Text headers survive encoding",
"A text header written is read back as the same characters, blank- or zero-padded or cut to 3200 bytes, and a header stored in EBCDIC or ASCII is recognised (by having more printable characters in one encoding) and returned as ASCII. The character conversion is a bijection between ASCII and EBCDIC for every character both can represent and returns the substitute character for every other.",
["inputs"],
"for all byte values and all printable texts of any length, both encodings",
"The tests convert one sample string each way.",
["src/utils/encoding/character_encoding.cc","src/ReadSEGY.cc","src/WriteSEGY.cc"],
"sorted-table lookup, encoding vote in ReadSEGY::Init, text copy in WriteSEGY")

p("C20","Radon-to-angle conversion picks the right samples",
"Converting a radon gather to an angle gather writes, for each gather of the input and each requested angle, exactly one trace whose samples are those of the radon trace the velocity model's value at that time selects (its number is the rounded ratio of velocity and cosine of the angle, divided by the bin), zero where that number is not positive or beyond the gather, and with the gather's inline and crossline; reading the velocity model returns for each gather the model trace at its inline and crossline, or for lines outside of the model at the closest lines of its grid. Operations on traces, sorts and further conversions requested after the conversion are applied to its output once, in that order for the conversions. No index goes outside the gather, the model or the output, for any model and number of processes.",
["inputs","configurations"],
"for all gathers, velocity models (any inline/crossline grid, increments, trace lengths), bin and angle parameters, process counts",
"There is no test of the conversion or of the velocity model reader with real data.",
["src/Flow/Set.cc","src/Flow/RadonGatherState.cc","src/ReadSEGYModel.cc","include/ExSeisDat/PIOL/ReadModel.hh"],
"Set::toAngle, RadonGatherState, ReadSEGYModel::readModel indexing, startGather")

p("C21","C interface is equivalent to the C++ interface",
"A program using the C functions observes the same values, files, ordering and errors as the corresponding C++ program for every operation the C interface offers, and creating and deleting its objects in any valid order never leaks, double frees or uses freed objects.",
["programs","histories"],
"for all sequences of C calls over files, rules, parameters, sets, sorting and min/max",
"The wrapper tests use mocks and check that a call is forwarded, not what it does.",
["src/PIOL_C_bindings.cc","src/Flow/Flow_C_bindings.cc","include/ExSeisDat/PIOL.h","include/ExSeisDat/Flow.h"],
"handle wrapping of shared pointers, argument forwarding")

p("C22","MPI lifetime, communicators and resources are handled exactly once",
"The library initialises MPI only if the program has not and then finalises it exactly once, at the end of the program; every file, datatype, communicator and window it creates is released exactly once; and an instance created on a sub-communicator communicates only with the processes of that communicator, so groups of processes can work independently at the same time with correct results from the reductions, gathers and offsets.",
["histories","schedules","configurations"],
"for all orders of creating, copying and destroying library objects, all sub-communicators, and concurrent use by disjoint groups",
"The tests create one global instance on the world communicator of one process.",
["src/CommunicatorMPI.cc","src/ExSeis.cc","src/DataMPIIO.cc","include/ExSeisDat/PIOL/CommunicatorMPI.hh"],
"MPI lifetime manager, CommunicatorMPI reductions, file and datatype handles")

p("C23","4D binning finds every nearest matching pair",
"The 4D binning utility outputs, for each trace of the first survey that has a trace of the second survey within the distance limit (source-to-source plus receiver-to-receiver distance, forward or reversed), that trace and a nearest such trace of the second survey at the same position of the two output files, every other trace being dropped and nothing duplicated. The set of pairs is the same for every number of processes.",
["inputs","configurations"],
"for all pairs of surveys, distance limits, options restricting to equal lines, and process counts",
"There is no test of the 4D utility.",
["util/4dcore.cc","util/4dio.cc","util/fourdbin.cc"],
"getCoords sort and scatter, calc4DBin one-sided exchange and pruning, outputNonMono")

p("C24","File utilities produce the file they promise for any process count",
"The command-line utilities give the same output file for every process count: concatenation writes all input traces in order, replication repeats the traces of its input the requested number of times byte for byte, the sorter writes a permutation that the order verifier accepts, the min/max utility writes the extremal traces, and the file generator writes the promised number of traces and samples in contiguous and random mode alike. Failure to do so is reported by the exit status.",
["inputs","configurations"],
"for all valid input files, option values and process counts",
"There is no test of the utilities.",
["util/concatenate.cc","util/makerep.cc","util/sort.cc","util/verifysort.cc","util/minmax.cc","util/filemake.cc","util/sglobal.cc"],
"utility main programs over the library")
p("C25","Reporting utilities tell what the files hold",
"The utilities that report on files print and write what the files contain, alike for every process count: the assessment the number of traces and samples, the interval and the text of every SEG-Y file that matches the pattern; the trace analysis the coordinates and lines of the trace asked for; the KML converter one placemark per file from the lowest to the highest source coordinates as longitude and latitude, converted from the given UTM zone where they are not degrees already; the radon utility the angle gathers of its input. A file that cannot be read or written is reported by the exit status.",
["inputs","configurations"],
"for all valid input files, options, UTM zones and process counts",
"There is no test of the utilities.",
["util/assess.cc","util/traceanalysis.cc","util/segy2kml.cc","util/radon.cc"],
"utility main programs, utm2LatLong, calcMin, Set::toAngle defaults")
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80 and x["statement"].count(". ")<=3,(x["id"],x["statement"].count(". "))
