#!/usr/bin/env python3
"""Writes known_findings.txt from the list below (commit hashes are looked up by subject in /repo)."""
import subprocess, os
F = [
("P05", "do not weld moves of different types at the start of an arc", "the first move of an arc could be a travel or retraction followed by extrusions"),
("P04", "keep the comments of all moves of an arc when blank lines lie between them", "comments of the first moves were lost when blank lines lay inside the run"),
("P04", "write the final arc when the file ends with a blank line", "an arc open at end of file was dropped into single moves / trailing blank line"),
("P18", "circular_buffer::push_back must add one item", "push_back did not add one item"),
("P18", "copying a container must not shift its items", "copies of circular_buffer / array_list were shifted"),
("P06", "count the digits of numbers that do not fit into an int", "get_num_digits overflowed an int, arcs exceeded the maximum gcode length"),
("P12", "do not overrun the buffer of dtos for very large and very small numbers", "buffer overrun for large magnitudes, wrong text for tiny ones"),
("P07", "use the values of I, J and R to measure the arcs of the source", "statistics used the wrong values and centre for source arcs"),
("P21", "recognise the UltiGCode flavor line in files with CRLF line ends", "the flavour line was pushed behind the header in CRLF files"),
("P05", "do not start an arc at an unknown position", "an arc could start at an unknown position, e.g. after G28"),
("P02", "write the Z parameter of an arc whenever Z changes", "Z was left out of helical arcs at Z<=0"),
("P16", "firmware compensation must use mm_per_arc_segment", "the compensation ignored the configured segment length"),
("P05", "3D arcs must follow the Z ramp of all of their points", "3D arcs were written for runs whose Z does not follow a ramp"),
("P10", "ignore leading zeros of command numbers", "G01/G00/M082 were not recognised"),
("P11", "G92 of an axis that was not homed must respect the firmware offset", "G92 of an unhomed axis ignored the tool offset"),
("P06", "include the extrusion of the last move in the gcode length of an arc", "arcs longer than the maximum gcode length were written"),
("P01", "check that every point lies within the arc, not only the last two", "arcs swept past, or left out, vertices of the run"),
("P05", "rounding errors of extruder offsets must not count as extrusion", "1e-16 mm of rounding noise counted as extrusion and travel was welded into extrusions"),
("P07", "tools that share an extruder must share its E position", "after a tool change the first absolute E was measured from zero"),
("P09", "initialise the number of extruders of a new position", "SMOOTHIEWARE straightening crashed on every file (uninitialised count)"),
("P09", "free the firmware of the straightener correctly", "mismatched delete of the firmware object"),
("P14", "each straightened move must start where the previous one ended", "marlin_2 and smoothieware kept a stale position, relative moves came out wrong"),
("P13", "marlin_2 arcs must move Z", "helical arcs lost their Z movement with MARLIN_2"),
("P13", "repetier 1.0.5 must not truncate the angle of the arc", "abs(int) dropped arcs of less than one radian"),
("P13", "repetier 1.0.5 arcs must move Z", "helical arcs lost their Z movement with REPETIER 1.0.5"),
("P19", "arc_segments_per_sec must use the feedrate in mm per second", "the feedrate was taken as mm per minute"),
("P19", "--g90-g91-influences-extruder=DEFAULT must keep the default of the firmware", "DEFAULT was read as TRUE"),
("P09", "the number of segments of an arc must not overflow", "tiny segment lengths overflowed the segment count"),
("P08", "a conversion that fails or is cancelled must keep the source file", "in-place conversion replaced the source after cancellation or a failed write"),
("P23", "the console must report a failed conversion in its exit status", "exit status 0 after a failed conversion"),
("P08", "the straightener must report failures and keep the source file", "exit status 0 and a destroyed source after a failed write"),
("P08", "a target that is the source under another path must not destroy the source", "./a versus a, or a link: the source was truncated before it was read"),
("P08", "temporary files of concurrent conversions must have different names", "every process used the same sequence of temporary names"),
("P22", "the python module must not raise an error when an optional argument is missing", "swapped arguments of log() set a ValueError"),
("P22", "the python module must report errors as exceptions", "wrong types crashed the interpreter or were ignored; exceptions of the callback became SystemError after the source was replaced"),
("P24", "progress must not go backwards at the end of a file without final line ending", "position -1 and a negative percentage at the end of the file"),
("P09", "large numbers must not overflow the integers they are stored in", "undefined conversions of large tool numbers and segment counts; NaN for numbers with hundreds of decimals"),
("P09", "start counting the arcs of the straightener at zero", "uninitialised counter printed"),
("P23", "the console must exit normally when it refuses an argument", "refused arguments ended in std::terminate (SIGABRT)"),
("P23", "the console must refuse precisions above 255", "-x=259 was cut to 3 and accepted"),
("P05", "G28 must home all of the axes it names", "G28 X Y homed X only, arcs started from an unknown Y"),
("P04", "indented or non-ASCII text must not be taken for a blank line", "an indented line of unknown text inside a run was dropped as if it were blank"),
("P06", "an arc must be written with the precision its length was checked with", "with dynamic precision a later move raised the precision of the pending arc, which then exceeded the maximum length"),
("P09", "do not use positions after the position list has grown", "with a history of three positions or less the first move of an arc was read after it was freed"),
("P22", "the time stamp of a log message must not fail after a long processor time", "after 2^31 ms of processor time the negative millisecond count ended the interpreter"),
("P19", "the straightener must exit normally when it refuses an argument", "refused arguments ended in std::terminate (SIGABRT)"),
 ("P26", "do not print a maximum radius warning when no extrusion rate variance is set", "a warning about the maximum radius was printed without reason when the extrusion rate variance was 0"),
 ("P26", "list the extrusion rate variance with its decimals", "the listed extrusion rate variance lost its decimals"),
 ("P26", "the borders of statistics tables in UTF-8 were damaged by repeated replacement", "the borders of statistics tables in UTF-8 were damaged by repeated replacement"),
 ("P27", "numbers printed by conversions in different threads must not share a buffer", "numbers of conversions in other threads got into the output (shared buffer in dtos)"),
 ("P25", "weld counter clockwise arcs whose middle point lies exactly at angle zero", "a counter clockwise arc whose middle point lies exactly at angle zero was abandoned there"),
 ("P29", "write commands that no arc can include at once", "lines between two arcs were kept in memory until the next arc started"),
 ("P30", "the Python module leaked the progress objects it builds", "the progress objects of the Python module were never released"),
 ("P27", "straightening a file must not change the standard streams of the process", "sync_with_stdio replaced the buffers of std::cout while other threads used them (crash)"),
 ("P20", "numbers in gcode must not follow the locale of the program", "numbers that need a stream were written with the decimal comma of the program's locale"),
 ("P31", "the library's messages must reach the Python logger", "the messages of a conversion were printed on the standard output and never reached the Python logger"),
 ("P31", "importing the Python module without its logger must raise the ImportError", "importing the Python module without its logger raised SystemError instead of ImportError"),
 ("P32", "a lift of the nozzle ends when it comes back down", "a lift was still reported after the nozzle had come back down, even while it was extruding"),
 ("P32", "a travel with the filament retracted is not the start of a retraction", "travel moves with the filament retracted were reported as the start of a retraction"),
 ("P32", "every move that undoes part of a retraction is deretracting", "a second move that pushed back as much as the one before was not deretracting"),
 ("P19", "correct the arc after as many segments as n_arc_correction says, also above 127", "the counters held 127 at most, so --n-arc-correction=200 switched the corrections off (Prusa, Repetier, Smoothieware)"),
 ("P33", "find the centre of an arc relative to its first point", "the centre of a shallow arc far from the origin was off by up to hundredths of a millimetre, so that runs were welded or not depending on where they lie"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
h = {}
for l in log:
    a, b = l.split(" ", 1)
    h[b] = a
FINDINGS = [
]
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "known_findings.txt"), "w") as f:
    f.write("# Defects found in FormerLurker/ArcWelderLib.  'fixed:' entries suppress nothing; 'finding:' entries name the one case that is known to fail.\n")
    for pid, subj, what in F:
        f.write("fixed: property=%s %s %s\n" % (pid, h["fix: " + subj], what))
    for l in FINDINGS:
        f.write(l + "\n")
missing = [s for s in h if s.startswith("fix: ") and s[5:] not in [x[1] for x in F]]
print("not listed:", missing)
