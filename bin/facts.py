"""What each check runs and how its evidence is worded (numbers come from the run itself)."""
FLAVOURS = {"P22": [("asan", 0.8), ("plain", 0.2)], "P08": [("race", 0.8), ("plain", 0.2)], "P29": [("plain", 0.7), ("asan", 0.3)], "P31": [("plain", 0.7), ("asan", 0.3)], "P28": [("py", 0.65), ("pyasan", 0.35)]}
# seconds of campaign and upper bound on runs
QUICK_S, THOROUGH_S = 22, 600
MAX_RUNS = {"quick": 2000000, "thorough": 100000000}

def budget(prop, tier, flavour, share):
    s = QUICK_S if tier == "quick" else THOROUGH_S
    return MAX_RUNS[tier], max(4, s * share)

LEVEL = {}
_W = "Each run converts a generated print file (random and slicer-like geometry, absolute/relative axes and extruders, tool changes, offsets, retractions, travel, 3D moves, feature comments, CRLF, odd spacing) with random settings under a random benign environment (short reads and writes, interrupted calls, stalled/jumping/backward clocks, junk memory), and in a ninth of the runs stops it from the progress callback; the whole result is compared with a reference model of the printer."
_F = "Each run converts a generated file in one of the path modes (separate, existing target, in place, symbolic link, hard link, odd spelling, other directory ...) under a seeded schedule of faults chosen from the operations a fault-free run of the same file performs: crash at an operation (possibly inside a write), I/O errors (transient or sticky), full disk, read-only directory, failed rename/unlink/open, short and interrupted calls; afterwards healthy restarts. Non-trivial: at least one hard fault or crash took effect."
_S = "Each run straightens a generated program with arcs (G2/G3 in I/J and R form, helices, relative and absolute modes, many sizes) for one of the supported firmwares, versions and option sets in a random benign environment and compares the output with an independent model of the firmware contract. Non-trivial: at least one arc was interpolated."
RULE = {p: _W + " Non-trivial: at least one arc was welded." for p in "P12 P13 P14 P15 P16 P17 P18 P19 P20".split()}
RULE.update({p: _F for p in "P01 P02 P04 P05 P06 P10 P21".split()})
RULE.update({p: _S for p in "P24 P25 P26".split()})
RULE["P03"] = "Each run stops a conversion from its progress callback at a random call, in every path mode, under random benign environments. Non-trivial: the stop request was delivered."
RULE["P07"] = "2-4 simulated processes convert files in the same directory at the same time (same source, same target, aliases, or neighbours); a seeded scheduler decides after every system call who runs next; faults may hit one of them. Non-trivial: processes really interleaved."
RULE["P08"] = "2-3 threads of one process convert different files at the same time; a seeded scheduler switches between them at memory accesses and at system calls, and a vector-clock detector watches every access to shared memory. Non-trivial: the threads really interleaved."
RULE["P09"] = "The same source and settings are converted again and again while everything else varies: environment, clock, chunking, path mode, library or program, log level, callback, buffer contents, earlier conversions in the same process. Non-trivial: the output holds arcs."
RULE["P11"] = "Random command lines (valid, each kind of invalid value, missing and contradicting options) for both programs, and valid ones under injected faults; a reference of the documented option rules says what must happen."
RULE["P22"] = "Random, damaged and hostile input (mutated programs, binary garbage, huge and tiny numbers, unknown commands, missing line ends) for both converters, with address and undefined-behaviour sanitizers. Non-trivial: the input is not empty."
RULE["P23"] = "Random valid command lines; the file must equal the one the library produces with the settings the options stand for, and the log level and progress type must have the documented effect on the screen."
RULE["P27"] = "Programs are welded, and the result straightened by a firmware model; the segments must trace the original moves. Non-trivial: at least one arc."
RULE["P28"] = "Each run calls ConvertFile of the real module on a real CPython interpreter inside the simulator: valid, clamped, missing and wrong-typed arguments, callbacks that stop, raise, return odd values or start another conversion, loggers that raise, repeated calls, disk faults and failing allocations. Non-trivial: an arc was welded, or a wrong argument was handled."
STATES = {p: "distinct (entry point, path mode, faults that took effect, outcome, restart number) and (last operation before a crash, its position)" for p in "P01 P02 P04 P05 P06 P10 P21".split()}
STATES.update({p: "distinct (entry point, path mode, settings switches, number of arcs)" for p in "P12 P13 P14 P15 P16 P17 P18 P19 P20 P30".split()})
STATES["P07"] = "distinct interleavings: sequences of (process, operation number) at the switches"
STATES["P08"] = "distinct interleavings: sequences of (thread, access number) at the switches"
RULE["P30"] = "Each run welds a program with runs of moves along a circle or helix between other lines; runs the reference finds ideal must each lie in one arc of the output. Non-trivial: at least one ideal run."
RULE["P29"] = "Each run drives the tracker (parser, position, ring buffer) through a random history of commands, undone updates and growing buffers with random printer settings and junk memory, and compares every state and the remembered states with a reference printer. Non-trivial: the position changed."
STATES["P29"] = "distinct sequences of (moved, layer change, extruding, relative)"
RULE["P31"] = "One parser and one reused command object take apart a random history of lines (commands in every spelling, parameters, texts, tool commands, comments, junk) in a run with junk memory, and numbers of every size are written with every number of decimals; each result is compared with an independent reading of the line. Non-trivial: a line with parameters."
STATES["P31"] = "distinct sequences of (command, number of parameters)"
RULE["P32"] = "Three quarters of the runs drive one logger through a random history of levels and messages under simulated clocks and compare what reaches standard output and error with the history; one quarter runs a program twice at two log levels on the same input (some with a full disk or a read-only directory) and compares status, files and messages. Non-trivial: messages written and suppressed, or two different levels."
STATES["P32"] = "distinct sequences of (level of the message, level of the logger), pairs of levels"
RULE["P33"] = "Each run starts one of the two programs with random settings, level, progress type, path mode, clock and, in a quarter, a failing disk, or asks for the defaults of a firmware; every line it prints about arguments, progress, totals and its end is compared with the command line, the files, the simulated clock and the exit status. Non-trivial: something about the run is printed."
STATES["P33"] = "distinct (program, progress type, path mode, outcome, level, firmware version)"
STATES["P28"] = "distinct (path mode, wrong argument, outcome, fault took effect, number of callbacks)"
REAL = ["all of GcodeProcessorLib, ArcWelder, ArcWelderConsole (main and option parsing, TCLAP) and ArcWelderInverseProcessor (main, firmwares), compiled from /repo's current tree", "libstdc++ file streams and everything above the system calls"]
SIMULATED = ["file system, file descriptors and directories (in memory: inodes, links, symbolic links, permissions, free space)", "clocks", "processes and threads (fibers under the seeded scheduler), process exit and kill", "randomness (random_device, rand, getrandom)", "standard output and error"]
ASSUME_ALL = ["a crash is the death of the process: the kernel keeps what was written (no power loss, so no claim about fsync)", "simulated file system semantics follow POSIX on Linux; Windows code paths are not compiled"]
_D = ["inputs stay inside the supported domain: millimetres (no G20), no N line numbers, feed rates of at least 1"]
ASSUME = {p: _D for p in "P09 P12 P13 P14 P15 P16 P17 P18 P19 P20 P23 P27 P30".split()}
ASSUME["P22"] = ["sanitizer builds share globals between runs, so each run converts in a fresh child process"]
ASSUME["P28"] = ["CPython 3.12 is the interpreter; the plugin's Python logging module (octoprint_arc_welder.log) is a stub that keeps messages or raises"]
REAL_MORE = {"P28": ["PyArcWelder (module, argument parsing, callbacks, logger) and the CPython 3.12 interpreter"]}
ASSUME["P29"] = ["millimetres; tools that share one extruder have no separate retraction state (not claimed)", "the reference takes the definitions of layer, height and priming from the settings' names and the code's comments"]
ASSUME["P31"] = ["no tabs or blanks inside words; parameters of commands that are not followed by the tracker are not claimed"]
ASSUME["P33"] = ["values are compared at the decimals shown; a failed query for the size of the source (injected) may leave the sizes of the progress unknown", "command lines that are refused are P11's"]
ASSUME["P32"] = ["the milliseconds of a message (processor time in the code) are not claimed", "the programs' messages below INFO are not compared between levels, because VERBOSE rewords them"]
