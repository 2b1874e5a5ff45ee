#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AW, SS, SA, UW = "ArcWelder/arc_welder.cpp", "ArcWelder/segmented_shape.cpp", "ArcWelder/segmented_arc.cpp", "ArcWelder/unwritten_command.h"
GP, GC, POS, UT, FP = "GcodeProcessorLib/gcode_position.cpp", "GcodeProcessorLib/gcode_parser.cpp", "GcodeProcessorLib/position.cpp", "GcodeProcessorLib/utilities.cpp", "GcodeProcessorLib/fpconv.cpp"
CC, ST, FW, HD = "ArcWelderConsole/ArcWelderConsole.cpp", "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp", "ArcWelderInverseProcessor/firmware.cpp", "ArcWelder/arc_welder.h"
ASX = "ArcWelderInverseProcessor/arc_interpolation.cpp"
TESTS = "The repository's tests only check number formatting and parsing of a few samples; none of them runs a conversion with faults, and the file-based ones need files that are not in the repository."
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, tech=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}}
    P.append((d, note, tech))

prop("P01", "In-place conversion is atomic under crashes and errors",
 "When a file is converted in place (no target, or a target that is the same file under another name), the source path always names a file that holds either the complete original or the complete conversion. This is true at every moment, whatever system call fails and wherever the process is killed.",
 ["crash_points", "fault_sequences", "inputs"], "every operation of the conversion as crash point (also inside a write), every failing system call, every way of naming the same file, any print file",
 "A test samples complete runs; the window between deleting and replacing the source is reached only by stopping the process there.", [AW], [("write to a temporary file beside the source, then replace the source in one rename", AW + ": process()")], ["simulated directory after every operation"])
prop("P02", "A failed read, write or replace is never reported as success",
 "If reading the source, writing the target or replacing the source fails for good, the result is reported as a failure, and a result reported as a success means that the target holds the complete conversion. The original file survives every failed conversion.",
 ["fault_sequences", "inputs"], "any sequence of failing, short or interrupted system calls, full disks and read-only directories, for any print file",
 TESTS, [AW, CC], [("stream state is checked after reading, writing and closing", AW + ": process()"), ("exit status follows the result", CC + ": main()")])
prop("P03", "Stopping a conversion is honoured and loses nothing",
 "When the caller's progress callback asks to stop, the conversion ends without converting another line (at most one final progress report follows) and is reported as cancelled, not as a success; otherwise it is never reported as cancelled. The original file stays as it was, also when converting in place, and no temporary files are left.",
 ["histories", "inputs", "configurations"], "a stop request at any callback, in every path mode, for any print file", TESTS, [AW, HD], [("continue_processing from on_progress_", AW + ": process()"), ("a cancelled in-place conversion removes its temporary file", AW + ": process()")])
prop("P04", "The source is never altered when a different target is given",
 "When source and target are different files, no run changes, truncates or removes the source. When they turn out to be one file under two names (links, relative paths, odd spellings), the file is treated as converted in place, never truncated.",
 ["configurations", "crash_points", "fault_sequences"], "every path spelling, symbolic and hard link, existing and missing target, with every fault and crash point", TESTS, [AW, UT], [("is_same_file decides between writing in place and separately", AW + ": process()")])
prop("P05", "Only the target is touched and no stray files remain",
 "A conversion creates or changes no file other than its target: unrelated files, also with names like temporary ones, keep their content. After a run that ended normally, with success or failure, nothing temporary is left behind, unless removing it failed too.",
 ["fault_sequences", "configurations", "histories"], "any failing call, any set of bystander files, every path mode", TESTS, [AW, UT], [("unique temporary names opened exclusively", UT + ": temporary file name creation"), ("temporary file removed on every failing path", AW + ": process()")])
prop("P06", "Running again after a crash completes the work",
 "However often a conversion was killed, and wherever, running it again to the end gives exactly what an undisturbed run gives. Leftovers of killed runs neither disturb the new run nor leak into its result.",
 ["crash_points", "histories"], "sequences of up to three killed runs at any operation followed by a healthy run", TESTS, [AW, UT], [("no state outside the target; temporary names are unique", AW + ": process()")])
prop("P07", "Concurrent conversions by several processes do not disturb each other",
 "Processes that convert different files in the same directory at the same time give the results they give alone. Processes that convert the same file in place never leave a mixture: the file is always a complete original or a complete conversion.",
 ["schedules", "fault_sequences"], "any interleaving of the system calls of 2 to 4 processes, with faults in one of them", TESTS, [AW, UT], [("temporary names are unique across processes", UT + ": temporary file name creation")])
prop("P08", "Concurrent conversions in several threads are isolated and race-free",
 "Several conversions may run at the same time in the threads of one program. Each gives the result it gives alone, and they never access the same memory without synchronisation while one of them writes.",
 ["schedules", "inputs"], "any interleaving of 2 or 3 threads at the level of memory accesses and system calls", TESTS, [AW, UT, GC, "GcodeProcessorLib/logger.cpp"], [("no writable state is shared between converters", UT + ": dtos"), ("parser, position and logger belong to one converter", AW)])
prop("P09", "The result depends only on the source and the settings",
 "The same source and the same settings always give byte for byte the same target. Time, clock jumps, how the file arrives in pieces, file names, logging, progress callbacks, the content of uninitialised memory and earlier conversions in the same process do not matter.",
 ["schedules", "histories", "configurations", "inputs"], "any environment, path mode, log level, callback and history of earlier conversions", TESTS, [AW, SA, GP], [("all state is initialised and reset per conversion", AW + ": reset()")])
prop("P10", "Straightening is crash-safe, honest and clean",
 "The straightener gives the same guarantees as the welder: an in-place conversion is atomic, failures exit with a non-zero status and keep the original, other files are not touched, and a re-run after a crash completes the work.",
 ["crash_points", "fault_sequences", "inputs"], "every crash point and failing call, every path mode, any program with arcs", TESTS, [ST, "ArcWelderInverseProcessor/arc_interpolation.cpp", FW], [("temporary file and rename; stream state checks", ST)])
prop("P11", "Exit status and argument checks of the command line tell the truth",
 "Both programs exit with status 0 exactly if the work was done, and refuse invalid options (documented ranges, missing source, options that contradict each other or do not apply to the firmware) with a non-zero status. A refused command line touches no file.",
 ["inputs", "configurations", "fault_sequences"], "any combination of valid and invalid options, and any I/O failure", TESTS, [CC, ST], [("validation after parsing", CC + ": main()"), ("firmware argument checks", ST)])
prop("P12", "Welded files leave the printer in the same state",
 "After every line of the target that stands for lines of the source, a printer is where the source would have taken it: same position on every axis, same extruder position, tool, offsets, feed rate, and same relative or absolute modes, up to rounding at the configured precision. So everything after a welded arc means what it meant before.",
 ["inputs", "programs", "configurations"], "any supported program with mode changes, offsets, tool changes, homing, retractions; any settings", TESTS, [AW, SA, GP], [("position tracking", GP + ": update()"), ("undo and re-read of positions when an arc is closed", AW + ": process_gcode()")])
prop("P13", "Arcs follow the original path within the resolution",
 "Every original point that an arc replaces lies on that arc within half of the resolution plus rounding, in the original order and direction of travel, the arc does not stray from the original segments, and with 3D arcs the Z values follow too. The length of the path stays within the path tolerance.",
 ["inputs", "programs", "configurations"], "any sequence of moves, resolutions, tolerances and precisions, near and far from the origin", TESTS, [SS, SA], [("circle fit and deviation checks", SS + ": arc::try_create_arc, are_points_within_slice"), ("direction of travel", SS)])
prop("P14", "Welding conserves extrusion",
 "An arc extrudes exactly the sum of what the moves it replaces extruded, so that total extrusion is conserved to rounding at every point in the file. Moves whose extrusion or retraction rate differs by more than the allowed variance are not welded together.",
 ["inputs", "programs", "configurations"], "absolute and relative extrusion, resets by G92, any rates and variance settings", TESTS, [AW, SA], [("e_relative_ accumulation", SA + ": get_shape_gcode"), ("rate check", AW + ": process_gcode()")])
prop("P15", "Everything that is not welded is passed through unchanged",
 "Each line of the source that is not part of a welded arc appears in the target, once, unchanged and in its original order relative to all other lines and arcs. Only welded moves disappear.",
 ["inputs", "programs"], "any mixture of commands, unknown commands, comments, blank lines and odd formatting around arcs", TESTS, [AW, UW], [("unwritten command buffer", AW + ": write_unwritten_gcodes_to_file, process_gcode()")])
prop("P16", "The header of the welder appears exactly where it must",
 "The target starts with one header that tells the settings used, except that marker lines which printers expect first stay first. Nothing else is added to the file.",
 ["inputs", "configurations"], "any start of file, with and without slicer markers and line-ending styles", TESTS, [AW], [("add_arcwelder_comment_to_target", AW)])
prop("P17", "Only moves that belong together are welded",
 "An arc replaces only consecutive linear moves of one kind (extruding, retracting or travelling) in absolute positioning, with one feed rate, one extruder mode, one tool and one feature type, and no line with an effect in between. Travel moves and moves with Z changes are welded only if that was asked for.",
 ["inputs", "programs", "configurations"], "any interleaving of moves with commands, kinds, feed rates and features", TESTS, [AW], [("conditions for adding a point", AW + ": process_gcode()")])
prop("P18", "Arcs respect the configured limits and format",
 "Every arc is a well-formed G2 or G3 with the configured precision, each word once, and no more than the maximum radius and line length; it replaces at least two moves. With firmware compensation, arcs that the firmware would draw with too few segments are left as moves.",
 ["inputs", "configurations"], "any settings of radius, length, precision, dynamic precision and firmware compensation", TESTS, [SA, SS, AW], [("limits", SA + ": try_add_point_internal_"), ("get_shape_gcode_length", SA)])
prop("P19", "Comments of welded moves are kept",
 "The comments of the moves that an arc replaces are carried by the arc's line, all of them and in order. No comment is lost, invented or attached to another arc.",
 ["inputs", "programs"], "any comments, empty lines and feature markers among moves", TESTS, [AW, UW], [("comment collection when an arc is written", AW + ": get_comment_for_arc")])
prop("P20", "Progress and statistics are truthful",
 "Progress never goes backward, never shows undefined numbers and ends at 100 % of the source on success. The counts of lines, commands, arcs, welded points and lengths in the final statistics match the two files.",
 ["inputs", "schedules", "configurations"], "any file, any notification period, clocks that stall, jump or run backward", TESTS, [AW, HD], [("get_progress_, segment statistics", AW), ("formatting of the statistics", HD)])
prop("P21", "Interrupted output is a faithful prefix",
 "If a run to a separate target is cut short by a crash, a full disk or a stop request, what the target holds is a prefix of the complete conversion. A cancelled run ends it at a whole line, and every source line read so far is represented.",
 ["crash_points", "fault_sequences", "histories"], "any crash point, amount of free space and stop request", TESTS, [AW], [("unwritten commands and pending arc are flushed on a stop", AW + ": process()")])
prop("P22", "No input makes a converter crash, hang or drop lines",
 "Any bytes as input, however damaged or extreme, are converted without memory errors, undefined behaviour, exceptions or endless loops. Comment lines in such a file survive in order.",
 ["inputs", "configurations"], "random bytes, mutated programs, huge and tiny numbers, missing and extra line ends, any settings", TESTS, [GC, GP, FP, UT, SA, FW], [("hand-written number parser and formatter", GC + ", " + FP), ("buffers of positions and points that grow", "GcodeProcessorLib/circular_buffer.h, array_list.h")])
prop("P23", "Every command line option has its documented effect",
 "The welder program gives exactly the file that the library gives with the settings that the options stand for, including defaults and combinations. The log level and progress type decide only what is shown.",
 ["configurations", "inputs"], "any combination of the options, in short and long form and in any order", TESTS, [CC, "ArcWelderConsole/ArcWelderConsole.h"], [("transfer of parsed values into the arguments", CC + ": main()")])
prop("P24", "The straightener passes other lines through and states its settings",
 "Every line that is not an arc appears in the output unchanged and in order, and arcs are replaced by linear moves at their place. The file starts with one header, which tells the firmware and the settings that were used.",
 ["inputs", "configurations", "programs"], "any program, firmware, version and option set", TESTS, [ST, FW], [("line loop of the processor", "ArcWelderInverseProcessor/arc_interpolation.cpp")])
prop("P25", "Straightened arcs end where the arc ends",
 "The moves that replace an arc end exactly at its end point on every axis, extrude what the arc extruded, keep its feed rate, and leave relative and absolute modes as they were. This is so for every supported firmware and version.",
 ["inputs", "configurations", "programs"], "any arc in I/J or R form, in any mode, for every firmware, version and option set", TESTS, [FW, "ArcWelderInverseProcessor/marlin_1.cpp", "ArcWelderInverseProcessor/marlin_2.cpp", "ArcWelderInverseProcessor/prusa.cpp", "ArcWelderInverseProcessor/repetier.cpp", "ArcWelderInverseProcessor/smoothieware.cpp"], [("mc_arc of each firmware", "ArcWelderInverseProcessor/*.cpp")])
prop("P26", "Straightened arcs lie on the arc, with the firmware's segment count",
 "The segments that replace an arc have their corners on it, in order, with even steps, and linear Z and extrusion. Their number is the one the firmware uses with these settings.",
 ["inputs", "configurations", "programs"], "any arc and any settings of segment length, correction, segments per second and limits", TESTS, ["ArcWelderInverseProcessor/marlin_1.cpp", "ArcWelderInverseProcessor/marlin_2.cpp", "ArcWelderInverseProcessor/prusa.cpp", "ArcWelderInverseProcessor/repetier.cpp", "ArcWelderInverseProcessor/smoothieware.cpp"], [("segment count and rotation with correction", "mc_arc of each firmware")])
prop("P27", "Welding and straightening together trace the original path",
 "A welded file, straightened again, moves the tool along the original path within the resolution plus the firmware's own segment error, with the same extrusion, and all other lines unchanged. The two programs agree about what an arc means.",
 ["inputs", "configurations", "programs"], "any supported program, welding settings and firmware", TESTS, [AW, SS, FW], [("both programs", "ArcWelder/, ArcWelderInverseProcessor/")])

prop("P28", "The Python module converts like the library and survives its callers",
 "ConvertFile gives the file, results and progress that the library gives with the settings its arguments stand for, obeys the callback's answer and passes the messages of the conversion to the host's logger. Missing or wrong required arguments, raising callbacks, disk faults and exhausted memory end in an exception or an honest result, never in a SystemError, a leak or a dead interpreter.",
 ["inputs", "configurations", "histories", "fault_sequences"], "any argument dictionary, any behaviour of the callback, repeated and nested calls, disk and allocation faults at any point", TESTS, ["PyArcWelder/py_arc_welder_extension.cpp", "PyArcWelder/py_arc_welder.cpp", "PyArcWelder/py_logger.cpp", AW], [("argument parsing and ConvertFile", "PyArcWelder/py_arc_welder_extension.cpp"), ("progress dictionaries and the callback", "PyArcWelder/py_arc_welder.cpp"), ("logging without losing a pending exception", "PyArcWelder/py_logger.cpp")])

prop("P29", "The position tracker follows the printer and undoes exactly",
 "After any history of commands the position tracker shows what the printer does: position, offsets, modes, feed rate, tool, extrusion, retraction, printed feature, layer and height. Its history holds the earlier states unchanged, undoing an update restores the state before it, and growing the history changes nothing.",
 ["histories", "inputs", "configurations"], "any sequence of commands, undone updates and growing buffers, any printer settings and buffer size", TESTS, [GP, "GcodeProcessorLib/gcode_position.h", POS, "GcodeProcessorLib/extruder.cpp", "GcodeProcessorLib/circular_buffer.h", GC], [("update(), undo_update(), grow_max_positions()", GP), ("ring buffer of positions", "GcodeProcessorLib/circular_buffer.h")])

prop("P30", "A path that follows a circle is welded",
 "A run of eligible moves whose points follow one circle or helix far more closely than the resolution, with one feed rate and flow and with radius, sweep and lengths well inside every limit, becomes part of a single arc, whatever surrounds it.",
 ["inputs", "configurations", "programs"], "any program around it, any settings, every position of the circle", TESTS, [AW, "ArcWelder/segmented_arc.cpp", "ArcWelder/segmented_shape.cpp"], [("fitting a circle and an arc", "ArcWelder/segmented_shape.cpp"), ("growing an arc, limits", "ArcWelder/segmented_arc.cpp"), ("eligibility of moves", AW)])

prop("P31", "Lines are taken apart and numbers written exactly",
 "Every line of G-code is taken apart into command, comment and text exactly as written and, for every command the position depends on, its parameters with name, value and decimals, whatever was parsed before and however it is spelled (case, blanks, leading zeros). Every number is written as the nearest plain decimal with the requested number of decimals.",
 ["inputs", "histories"], "any history of lines through one parser, any finite number up to 1e9 and 0 to 7 decimals", TESTS, [GC, "GcodeProcessorLib/parsed_command.cpp", "GcodeProcessorLib/parsed_command_parameter.cpp", UT, FP], [("try_parse_gcode", GC), ("dtos, fpconv_dtos", UT + ", " + FP)])

prop("P32", "Messages respect the log level and change nothing",
 "Every message at or above the level of its logger is written once, in order, with date and time, logger, level and text, exceptions to standard error and others to standard output; none below. Both programs write the same files, end the same way and print the same messages from INFO up at every log level that admits them.",
 ["histories", "configurations", "inputs"], "any history of levels and messages, any pair of levels, any input, any clock, failing disks", TESTS, ["GcodeProcessorLib/logger.cpp", "GcodeProcessorLib/logger.h", AW, "ArcWelderConsole/ArcWelderConsole.cpp", "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp"], [("levels, format and streams", "GcodeProcessorLib/logger.cpp"), ("messages of a conversion", AW)])

prop("P33", "What the programs print about a run is true",
 "Where the log level shows it, both programs end with their message of success exactly when the exit status is 0, and say that they failed otherwise. The arguments, firmware settings and defaults they list are the ones the run uses; progress never goes back, ends at 100% and its times agree with percentage and clock; the totals, statistics messages and last progress line say what the files hold.",
 ["inputs", "configurations", "faults", "clocks"], "any valid command line, any input, any clock, failing disks", TESTS, ["ArcWelder/arc_welder.h", AW, "ArcWelderConsole/ArcWelderConsole.cpp", "ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp", "ArcWelderInverseProcessor/firmware.h", "ArcWelderInverseProcessor/arc_interpolation.cpp"], [("arc_welder_args::str(), arc_welder_progress::str(), simple_progress_str()", "ArcWelder/arc_welder.h"), ("get_arguments_description()", "ArcWelderInverseProcessor/firmware.h"), ("totals", "ArcWelderInverseProcessor/arc_interpolation.cpp")])

CLAIMED = {d["id"] for d, _, _ in P}
if not os.path.exists(f"{V}/sim/race.cpp"): CLAIMED.discard("P08")
with open(f"{V}/properties.jsonl", "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
NOTE = {
 "P01": "Seeded search over crash points and fault sequences on the real code; the source path is inspected after every simulated operation. Sampled, not exhaustive; trusts the simulated file system.",
 "P08": "Seeded scheduler with switches at instrumented memory accesses plus a happens-before race detector; sampled schedules.",
}
DEF = {"W": "Seeded search over programs, settings, environments and stop requests; each run's whole output is checked against an independent reference model. Sampled; trusts the model.",
       "F": "Seeded search over fault and crash schedules on the real code, with checks after every operation and over the final file system. Sampled; trusts the simulated file system (process crash, not power loss)."}
def note(i):
    return NOTE.get(i) or (DEF["F"] if i in "P02 P03 P04 P05 P06 P07 P10 P11 P21".split() else DEF["W"])
def tech(i):
    if i in ("P12 P13 P14 P15 P16 P17 P18 P19 P20 P30".split()): return "deterministic simulation with fault injection; refinement check of the recorded output against a reference printer model"
    if i in "P24 P25 P26 P27".split(): return "deterministic simulation with fault injection; reference model of firmware arc interpolation"
    if i == "P08": return "deterministic simulation; seeded thread scheduling at memory accesses, happens-before race detection"
    if i == "P22": return "deterministic simulation with fault injection; hostile input under sanitizers"
    if i == "P29": return "deterministic simulation of command histories with undo; refinement check of every state against a reference printer model"
    if i == "P31": return "deterministic simulation of line histories through one parser; seeded search against a reference reading of each line"
    if i == "P32": return "deterministic simulation with fault injection; refinement check of logged messages against the history of levels, differential check across log levels"
    if i == "P33": return "deterministic simulation with fault injection; the printed text of each run checked against its command line, files, clock and exit status"
    if i == "P28": return "deterministic simulation with fault injection; differential check of the embedded Python module against the library, object counts over repeated calls"
    if i in ("P09", "P23"): return "deterministic simulation; differential check across simulated environments and entry points"
    return "deterministic simulation with fault injection; invariants at every operation and over the history"
M = {"version": 1, "setup_cmd": "python3 bin/build.py plain asan py pyasan" + (" race" if "P08" in CLAIMED else ""),
     "hooks": {"guard": "none", "enable": "no hooks: the seams are linker wrappers around libc calls, so /repo is compiled as it is", "source_commits": []},
     "checks": [{"property": d["id"], "quick_cmd": f"python3 bin/check.py {d['id']}", "thorough_cmd": f"python3 bin/check.py {d['id']} --thorough", "technique": tech(d["id"]), "level": "exploration", "level_note": note(d["id"])} for d, _, _ in P if d["id"] in CLAIMED],
     "not_applicable": [{"property": d["id"], "reason": "check not built yet"} for d, _, _ in P if d["id"] not in CLAIMED]}
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
