#!/usr/bin/env python3
# Regenerates properties.jsonl (one property per line) from the table below.
import json, os
A='ArcWelder/'; G='GcodeProcessorLib/'; I='ArcWelderInverseProcessor/'; C='ArcWelderConsole/'; PY='PyArcWelder/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
T5="The five stable tests format a few numbers and parse one line; "

p('P01','Welded arcs trace the original path within the configured resolution',
 "For every input program and every option set, each arc written in place of a run of straight moves starts and ends where the run did, passes the run's vertices in order in the direction of travel without sweeping outside them, and lies within half of the configured resolution of every vertex and of every point where a segment is perpendicular to a radius (plus the rounding of the printed coordinates). The arc's length differs from the length of the moves it replaces by no more than the configured path tolerance.",
 ['inputs','configurations'],"every G-code program of G0/G1 moves with other commands in between, every resolution, path tolerance, maximum radius and precision setting",
 T5+"none welds a file and measures the resulting toolpath; the guarantee is over all geometry, and the failures live in rare shapes (near-full circles, angle wrap-around, collinear runs, tiny segments).",
 [A+'segmented_shape.cpp',A+'segmented_arc.cpp',A+'arc_welder.cpp'],
 [('circle fit and deviation test','circle::try_create_circle / is_over_deviation / get_deviation_sum_squared'),('direction and length choice','arc::try_create_arc'),('slice test','arc::are_points_within_slice')],
 ['target file of arc_welder::process','ArcWelder CLI output'],
 [('points_','vertices collected for the candidate arc','segmented_shape'),('current_arc_','best arc so far','segmented_arc')])
p('P02','Machine state is the same at every surviving command and at the end',
 "Every command that survives welding executes with the same X, Y, Z and extruder position, the same absolute/relative modes and the same feedrate as it did in the source program, up to the rounding of printed numbers. The same holds for the state left at the end of the program.",
 ['inputs','histories','configurations'],"every command history mixing moves, mode switches, position resets, homing, tool changes, comments and blank lines, with every option set",
 T5+"no test replays source and welded files side by side; it needs histories where resets, mode changes and feedrate changes fall next to arcs.",
 [A+'arc_welder.cpp',A+'segmented_arc.cpp',G+'gcode_position.cpp'],
 [('source position tracking and undo when an arc is closed','arc_welder::process_gcode / gcode_position::undo_update'),('arc end position, E and F output','segmented_arc::get_shape_gcode')],
 ['target file of arc_welder::process'],
 [('p_source_position_','ring of tracked positions','arc_welder')])
p('P03','Extrusion is conserved by every arc and by the whole program',
 "Each arc extrudes or retracts exactly the sum of what the moves it replaces did, in absolute as well as in relative extrusion mode and across extruder resets, up to the rounding of the printed extruder value. Over the whole program the net filament length and the total pushed forward and pulled back are the same as in the source.",
 ['inputs','histories','configurations'],"every program with absolute or relative extrusion, resets, retractions and any options",
 T5+"none sums filament over a welded file.",
 [A+'segmented_arc.cpp',A+'arc_welder.cpp',G+'gcode_position.cpp',G+'extruder.cpp'],
 [('running relative extrusion of the candidate arc','segmented_arc::try_add_point'),('E output','segmented_arc::get_shape_gcode')],
 ['target file of arc_welder::process'],[('e_relative_','extrusion collected for the arc','segmented_shape')])
p('P04','Everything that is not welded is passed through verbatim and in order',
 "The welded file is the source file in which some runs of consecutive straight moves are each replaced by one arc: every other line appears unchanged, exactly once and in the original order, with nothing added but the tool's own header. An arc carries the comments of the moves it replaces, in order (an exact repetition may be dropped); only blank lines inside a run, trailing carriage returns of comments and an empty comment marker may disappear.",
 ['inputs','histories','configurations'],"every sequence of known and unknown commands, comments, blank lines, text messages, odd spacing and letter case, any options",
 T5+"none compares the lines of a whole file; losses appear only with specific interleavings at arc borders and at end of file.",
 [A+'arc_welder.cpp',A+'unwritten_command.h',G+'gcode_parser.cpp',G+'circular_buffer.h'],
 [('queue of unwritten commands','arc_welder::write_unwritten_gcodes_to_file'),('removal of replaced commands','arc_welder::write_arc_gcodes'),('comment merge','arc_welder::get_comment_for_arc')],
 ['target file of arc_welder::process'],[('unwritten_commands_','lines read but not yet written','arc_welder')])
p('P05','Only moves that are allowed to be welded are welded',
 "An arc replaces only straight moves made in absolute positioning from a known position, all of one kind (all extruding, all retracting or, only when travel arcs are enabled, all travel), in one extrusion mode, at one feedrate and under one slicer feature label. Z stays constant along the run unless 3D arcs are enabled, in which case Z follows a straight ramp along the path within the resolution; nothing that changes machine state lies between the moves.",
 ['inputs','histories','configurations'],"every program and combination of the travel, 3D, precision and g90-influences-extruder options",
 T5+"none checks which moves were merged; violations need particular neighbours such as a travel move before the first extrusion, a Z change on the last segment, or a feature comment mid-arc.",
 [A+'arc_welder.cpp',A+'segmented_arc.cpp',A+'segmented_shape.cpp',G+'gcode_comment_processor.cpp'],
 [('eligibility condition','arc_welder::process_gcode'),('type and Z checks','segmented_arc::try_add_point'),('Z step check','circle::is_over_deviation')],
 ['target file of arc_welder::process'],[('waiting_for_arc_','an arc is being collected','arc_welder')])
p('P06','Arc commands are well-formed and obey precision, radius and length limits',
 "Every arc command written is one G2 or G3 with X, Y, I and J (and Z, E, F only as needed), each once, in plain decimal notation with exactly the configured number of decimals (zero may be printed as 0), or with dynamic precision the widest seen so far in the source. I and J are never both zero, the radius never exceeds the configured maximum, and when a maximum G-code length is set no arc command (without its comment) is longer.",
 ['inputs','configurations'],"every program, coordinate magnitude and sign, precision from 3 to 6, dynamic precision, and every maximum length and radius",
 T5+"they format isolated numbers, not whole arc commands against limits, and never large or negative values with a length limit.",
 [A+'segmented_arc.cpp',A+'segmented_shape.cpp',G+'utilities.cpp'],
 [('arc text','segmented_arc::get_shape_gcode'),('length estimate','segmented_arc::get_shape_gcode_length / utilities::get_num_digits'),('precision tracking','segmented_shape::update_xyz_precision')],
 ['target file of arc_welder::process'])
p('P07','Welding never adds motion commands and its reported statistics are true',
 "The welded file never has more commands than the source, each arc replacing at least two moves. The progress and statistics reported at the end (lines and commands read, points compressed, arcs created, file sizes, compression, and the count, length and histogram of extrusion, retraction and enabled travel moves between known positions before and after) match the two files.",
 ['inputs','configurations'],"every program and option set",
 T5+"none compares reported numbers with the files.",
 [A+'arc_welder.cpp',A+'arc_welder.h'],
 [('statistics update','source_target_segment_statistics::update'),('progress snapshot','arc_welder::get_progress_')],
 ['arc_welder_results.progress'])
p('P08','Converting a file in place never loses the source when it does not succeed',
 "When source and target are the same file, the source is replaced only by the complete result of a successful conversion; if the conversion is cancelled, the output cannot be created, or any write fails, the source keeps its bytes, the failure is reported (unsuccessful result or non-zero exit status) and no temporary file is left behind. With distinct files the source is never changed, and a failed write is reported instead of a success. The same holds for the tool that turns arcs back into lines.",
 ['fault_sequences','crash_points','inputs'],"every point at which a write can fail or a cancellation can arrive, for every input size, in place or not",
 T5+"no test injects a failing write, an unwritable directory or a cancellation.",
 [A+'arc_welder.cpp',I+'arc_interpolation.cpp',C+'ArcWelderConsole.cpp',I+'ArcWelderInverseProcessor.cpp',G+'utilities.cpp'],
 [('temporary file and rename','arc_welder::process / arc_interpolation::process'),('temporary name','utilities::get_temp_file_path_for_file')],
 ['file system after the run','exit status','arc_welder_results'])
p('P09','Any input is processed without a crash and with the same result each time',
 "Both conversion tools terminate normally on every input file, whatever its bytes, with no memory error, undefined behaviour or endless loop. Running the same input with the same options again, in the same process or another, gives byte-identical output.",
 ['inputs','configurations'],"every byte string up to a bounded size (mutated G-code and arbitrary bytes) and every documented option set",
 T5+"they reach a handful of well-formed lines.",
 [G+'gcode_parser.cpp',G+'gcode_position.cpp',G+'utilities.cpp',A+'arc_welder.cpp',I+'arc_interpolation.cpp'],
 [('parsing','gcode_parser::try_parse_gcode'),('number formatting','utilities::dtos'),('containers','circular_buffer / array_list')],
 ['process exit status','sanitizer reports','target file'])
p('P10','The parser reads commands, parameters, text and comments as written',
 "For every line of printable text the parser reports the command word, each parameter with its letter and numeric value, and the comment that a direct reading of the line gives, independent of letter case and of spaces between words and inside numbers. A parameter letter that no number follows takes the rest of the line as its text, text outside recognised commands never produces parameters, and the preserved command text plus the comment reproduces the line.",
 ['inputs'],"every line built from commands, numbers (any sign, leading or trailing dot, many digits), spacing, letter case, text messages, special commands and comments",
 T5+"one parse of one line.",
 [G+'gcode_parser.cpp',G+'parsed_command.cpp',G+'parsed_command_parameter.cpp',A+'unwritten_command.h'],
 [('line parser','gcode_parser::try_parse_gcode'),('number parser','gcode_parser::try_extract_double')],
 ['parsed_command'])
p('P11','The position tracker follows the machine through every command history',
 "After every command, the tracked X, Y, Z, extruder position, offsets, feedrate, positioning modes, per-move extrusion and extruding/retracting state equal those of a simple reference machine executing the same commands from the same configuration. Undoing the last update restores the previous state, and the history depth does not influence the current state.",
 ['histories','configurations'],"every sequence of moves, arcs, resets, homing, mode changes, tool changes, firmware offsets, and undo, with every tracker configuration",
 T5+"none tracks a history.",
 [G+'gcode_position.cpp',G+'position.cpp',G+'extruder.cpp'],
 [('update','gcode_position::update'),('undo','gcode_position::undo_update')],
 ['gcode_position::get_current_position'],[('positions_','ring of positions','gcode_position')])
p('P12','Numbers are printed correctly rounded, in plain decimal, for every value',
 "Every finite number printed with a requested number of decimals is plain decimal text with exactly that many decimals (zero may be printed as 0), lies within half a unit in the last printed place of the value (ties, and values within the double's own rounding of one, either way) and never overruns its buffer. The digit count used for length limits equals the number of digits before the decimal point of the printed number, ties aside.",
 ['inputs','configurations'],"every finite double (any magnitude, sign, subnormal, ties, near powers of ten) and every precision",
 "The existing tests format a few dozen chosen values; carries, huge values, negative zero and large precisions are not reached.",
 [G+'utilities.cpp',G+'fpconv.cpp'],
 [('decimal formatting','utilities::dtos'),('shortest digits','fpconv.cpp grisu2'),('digit count','utilities::get_num_digits')],
 ['utilities::dtos return value'])
p('P13','Straightened arcs follow the arc they replace',
 "For every supported firmware and version, each arc is replaced by straight moves that start from the arc's start, end exactly at its programmed end, go around the programmed centre in the programmed direction through the programmed angle (a full turn when the firmware takes start and end as equal), staying on the circle up to the firmware's own small-angle approximation. Where the firmware supports helical arcs, Z advances linearly along the moves to the programmed Z.",
 ['inputs','configurations'],"every arc (radius, angle, direction, helix, full circle), firmware type, version and firmware argument",
 T5+"the straightener has no test at all.",
 [I+'arc_interpolation.cpp',I+'marlin_1.cpp',I+'marlin_2.cpp',I+'prusa.cpp',I+'repetier.cpp',I+'smoothieware.cpp',I+'firmware.cpp'],
 [('arc interpolation per firmware','<firmware>::interpolate_arc')],
 ['target file of the straightener'])
p('P14','Straightening preserves everything else: extrusion, modes, feedrate, other lines',
 "For every firmware, the moves replacing an arc extrude in total what the arc did, evenly along the path, in absolute and relative extrusion mode, and use the arc's feedrate; commands after the arc run from the same position, extruder position, modes and feedrate as in the source. The comment of an arc may be dropped. All lines that are not arcs appear unchanged, once and in order, after the tool's header.",
 ['inputs','histories','configurations'],"every program mixing arcs, moves, mode switches, resets and other lines, every firmware, version and argument set",
 T5+"the straightener has no test at all.",
 [I+'arc_interpolation.cpp',I+'firmware.cpp',I+'marlin_1.cpp',I+'marlin_2.cpp',I+'prusa.cpp',I+'repetier.cpp',I+'smoothieware.cpp'],
 [('emitted move','firmware::g1_command'),('line loop','arc_interpolation::process_gcode')],
 ['target file of the straightener'])
p('P15','Welding and then straightening returns the original toolpath',
 "For every print program, welding it and straightening the result gives a program with no arcs left whose toolpath stays within the weld resolution plus the straightener's chord error of the source toolpath, in the same order. The filament used by each run of moves, all other commands and the state at each of them are those of the source.",
 ['inputs','configurations'],"every program, welding options and firmware",
 T5+"no test composes the two tools.",
 [A+'arc_welder.cpp',I+'arc_interpolation.cpp'],
 [('both conversions','arc_welder::process, arc_interpolation::process')],
 ['final file'])
p('P16','Firmware compensation never writes an arc the firmware would draw too coarsely',
 "When a firmware segment length and a minimum number of segments per circle are configured, every arc that is written has either a circumference that holds at least the minimum number of the compensated segments or replaces moves whose own total length fits into its circumference at least that many times. With either setting absent, compensation rejects nothing, and each rejected arc is counted.",
 ['inputs','configurations'],"every arc radius and length and every pair of settings",
 T5+"compensation is never switched on.",
 [A+'segmented_arc.cpp'],[('compensation','segmented_arc::try_add_point_internal_')],['target file of arc_welder::process'])
p('P17','Moves with differing extrusion rates are not merged beyond the allowed variance',
 "When an extrusion rate variance is set, two consecutive extruding moves of known length are merged into the same arc only if the filament per millimetre of the second differs from that of the first by no more than the allowed fraction. With the variance set to zero the rate never prevents an arc.",
 ['inputs','configurations'],"every sequence of per-move extrusion rates, in absolute and relative mode, and every variance",
 T5+"the option is never exercised.",
 [A+'arc_welder.cpp',G+'utilities.cpp'],[('rate check','arc_welder::process_gcode'),('percent change','utilities::get_percent_change')],['target file of arc_welder::process'])
p('P18','The queue and list containers behave like an unbounded deque',
 "Under every sequence of pushes, pops, indexed reads, copies (through copy()), clears and growth, the ring buffer and the growable list used by the tools hold exactly the elements a plain double-ended queue would hold, in the same order; a full ring drops the element at the opposite end. Popping from an empty container, or pushing to a full list of fixed size, is refused.",
 ['histories'],"every operation sequence, at every fill level and wrap position",
 T5+"no container test is part of the stable set.",
 [G+'circular_buffer.h',G+'array_list.h'],[('ring arithmetic','circular_buffer / array_list')],['container API'])
p('P19','Firmware type, version and argument handling is consistent and total',
 "Every firmware and version the straightener advertises is accepted and really used, and every other one is refused with a non-zero exit status, a message that names the versions of that firmware, and no output written. Segment-shaping arguments that a firmware version advertises change the interpolation as documented, and the argument defaults reported for a version are those used when none are given.",
 ['configurations','inputs'],"every firmware type, version string and advertised argument value",
 T5+"the straightener has no test at all.",
 [I+'firmware.cpp',I+'firmware.h',I+'ArcWelderInverseProcessor.cpp',I+'arc_interpolation.cpp'],
 [('version selection','firmware::is_valid_version / set_versions'),('defaults','<firmware>::get_default_arguments_for_current_version')],['straightener CLI'])
p('P20','Logging, progress reporting and buffer sizes do not influence the result',
 "The welded file is byte-identical whatever the log level, the progress callback and its period, and the initial history buffer size, and whether the conversion is in place or to another file; and neither tool's G-code depends on the locale of the program that calls it (the header comment aside). Appending lines to a program never changes the output for the earlier part beyond the arc still open at its end.",
 ['configurations','inputs'],"every program with every pair of observation settings, and every split point",
 T5+"each runs one configuration.",
 [A+'arc_welder.cpp',G+'circular_buffer.h',G+'gcode_position.cpp'],[('buffer growth','gcode_position::grow_max_positions'),('log level checks','arc_welder::process_gcode')],['target file of arc_welder::process'])
p('P21','The header states the settings used and keeps a required first line first',
 "Every file welded from a source that is not empty starts with one header that states the resolution, path tolerance, maximum radius, precisions and each enabled option as actually applied, and nothing for disabled ones. An UltiGCode flavour line or a PrusaSlicer generator line that opens the source stays the very first line of the result, whatever the line ending.",
 ['inputs','configurations'],"every first line, line ending and option set",
 T5+"none looks at the header.",
 [A+'arc_welder.cpp'],[('header','arc_welder::add_arcwelder_comment_to_target'),('first line test','arc_welder::process')],['target file of arc_welder::process'])
p('P22','The Python module converts exactly like the command-line tool',
 "For every program and option dictionary, the Python conversion call writes the same body as the command-line tool run with the same (validated) options, reports success, cancellation and statistics truthfully, and calls the progress callback with values that only grow up to completion. Missing required arguments or wrong types raise a Python exception and leave both files alone; a callback that asks to stop, or raises, cancels the conversion. A callback may start another conversion, in its own or another thread, without influence on either.",
 ['inputs','configurations','fault_sequences'],"every option dictionary (absent, extreme and wrongly typed values), program and callback behaviour",
 T5+"the Python module is never loaded by them.",
 [PY+'py_arc_welder_extension.cpp',PY+'py_arc_welder.cpp'],[('argument parsing','py_gcode_arc_args::parse_args'),('callback','py_arc_welder::on_progress_')],['PyArcWelder.ConvertFile'])
p('P23','Command-line options are validated and applied as documented',
 "Each documented option of the welding tool has the documented effect (the result equals that of the library run with that setting), absent options take their documented defaults, and out-of-range values are refused with a non-zero exit status before any file is written. A successful run exits with status zero and writes the target.",
 ['configurations','inputs'],"every combination of options, short and long names, in and out of range values",
 T5+"no test runs the command-line tools.",
 [C+'ArcWelderConsole.cpp'],[('option parsing and validation','main')],['ArcWelder CLI'])
p('P24','Cancelling and progress reporting are consistent',
 "When the progress callback asks to stop before the end of the file, processing stops, the result is reported as cancelled and unsuccessful, and what was written is a valid conversion of the lines processed up to then. Progress values never decrease during a run, and a run that is not cancelled reports success and a final update equal to its result. A caller who sets no waiting period is asked again and again throughout a long file.",
 ['schedules','inputs','crash_points'],"every callback at which a stop is requested, notification periods, and programs of many thousand lines",
 T5+"no test uses a callback that stops.",
 [A+'arc_welder.cpp'],[('callback','arc_welder::on_progress_'),('loop exit','arc_welder::process')],['arc_welder_results'])
p('P25','Clean arcs are recognised and welded',
 "A run of three or more permitted moves of one kind whose points were sampled from one circle (within the radius limit, closer than the resolution and the path tolerance, less than a full turn) is replaced (except possibly its first move) by a single arc in the direction of travel, for every centre, radius, start angle, direction and extrusion mode, and however many moves it has. Neighbouring commands of other kinds do not prevent it, nor do limits that the run satisfies (rate variance, firmware compensation, line length); with 3D arcs enabled the same holds for a helix.",
 ['inputs','configurations'],"every circle, sampling and allowed option set, at every place in a program",
 T5+"none welds a file; a tool that welds nothing would pass them and satisfy every safety property.",
 [A+'arc_welder.cpp',A+'segmented_arc.cpp',A+'segmented_shape.cpp'],[('arc search','circle::try_create_circle, segmented_arc::try_add_point')],['target file of arc_welder::process'])
p('P26','What the tools print about their work is true',
 "The settings the welding tool lists are the ones it applies; the statistics tables, progress lines, log lines and closing summaries it prints state the counts, lengths, percentages and sizes of the conversion that was actually done, in every class, total and box encoding; and a warning appears exactly when its cause is present. The straightener's printed settings and firmware defaults are those in use.",
 ['inputs','configurations'],"every table of counts and lengths, every option set, and every program the tools are run on",
 T5+"none reads what the tools print.",
 [A+'arc_welder.h',A+'arc_welder.cpp',C+'ArcWelderConsole.cpp',I+'ArcWelderInverseProcessor.cpp',G+'utilities.cpp',G+'logger.cpp'],
 [('tables','source_target_segment_statistics::str, utilities::box_drawing'),('settings','arc_welder_args::str'),('progress lines','arc_welder_progress::str / simple_progress_str'),('summary and warnings','main of both tools')],
 ['standard output of ArcWelder and ArcStraightener','str() of the report classes'])
p('P27','Conversions do not influence one another',
 "A conversion gives the same bytes and the same report whether it is the first of its process or comes after other conversions with other programs, settings and tools, whether it is started from inside another conversion's progress callback, and while others run in other threads on files of their own in the same directory. No conversion leaves files behind for the others, or changes what they share: the standard streams, locale, working directory and signal handling of the process.",
 ['histories','schedules','inputs','configurations'],"every sequence, nesting and set of threads of welding and straightening conversions",
 T5+"none runs a conversion, let alone two; state shared between conversions shows only in some order or interleaving.",
 [A+'arc_welder.cpp',A+'segmented_arc.cpp',G+'utilities.cpp',G+'gcode_position.cpp',I+'arc_interpolation.cpp'],
 [('state of a conversion','arc_welder, segmented_arc, gcode_position, arc_interpolation'),('number formatting','utilities::dtos'),('temporary names','utilities::create_uuid')],
 ['target files and arc_welder_results'])
p('P28','The spelling of a program does not change what the tools do with it',
 "Two programs which differ only in letter case, in spaces, in leading or trailing zeros and plus signs of their numbers, in the order of the parameters of a command, in their line ends, or in a remark after a command (other than the names of features which slicers write there), are treated alike by both tools: the same moves become the same arcs and the same arcs the same moves, and every other line is kept in its own spelling. (With dynamic precision the written number of decimals is part of the program.)",
 ['inputs','configurations'],"every program, every respelling of it and every option set of both tools",
 T5+"they parse one line in one spelling; a reading that depends on the spelling shows only where two spellings are compared.",
 [G+'gcode_parser.cpp',G+'gcode_position.cpp',A+'arc_welder.cpp',I+'arc_interpolation.cpp'],[('reading a line','gcode_parser::try_parse_gcode'),('deciding what to weld','arc_welder::process_gcode')],['target files of arc_welder::process and arc_interpolation::process','arc_welder_results'])
p('P29','Conversions need bounded memory and give back all they take',
 "The memory which a welding or straightening conversion needs does not grow with the length of the program, and its time grows no faster than in proportion to it, however the program's stretches of moves, comments and other commands alternate. When a conversion is over, whether it succeeded, was stopped by its callback or failed for want of a file, it holds no memory and no open file.",
 ['inputs','histories','fault_sequences'],"every program repeated any number of times, every option set, every way in which a conversion ends",
 T5+"no test measures memory, time or open files; growth shows only on long programs and after many conversions.",
 [A+'arc_welder.cpp',A+'segmented_arc.cpp',G+'array_list.h',G+'circular_buffer.h',G+'gcode_position.cpp',I+'arc_interpolation.cpp'],
 [('lines held back for an arc','arc_welder::process_gcode, write_unwritten_gcodes_to_file'),('history','gcode_position::positions_'),('containers','array_list, circular_buffer')],
 ['allocations and open files of the process','processor time of arc_welder::process and arc_interpolation::process'])
p('P30','The Python module gives back every object it takes or makes',
 "Calling the Python conversion function any number of times leaves the interpreter as it was: no object, no memory and no open file remains from a call, and every object that was passed in (the dictionary, its values, the callback and what it returns or raises) has the references it had before. This holds for calls that succeed, that the callback stops or breaks off by raising an error, that are refused for missing or wrong arguments, and that fail for want of a file.",
 ['inputs','histories','configurations','fault_sequences'],"every argument, program and callback behaviour, in every number of calls",
 T5+"the Python module is never loaded by them, and a lost or surplus reference shows only after many calls.",
 [PY+'py_arc_welder_extension.cpp',PY+'py_arc_welder.cpp',PY+'py_logger.cpp'],[('argument parsing','py_gcode_arc_args::parse_args'),('callback','py_arc_welder::on_progress_'),('logging','py_logger::log')],['PyArcWelder.ConvertFile','reference counts of the interpreter'])
p('P31',"Messages reach the Python logger, and a failing logger does no harm",
 "Every message of a conversion started from Python, at or above the chosen log level, arrives at the plugin's logger: once, in order, at its own level and with its own text (what is no valid UTF-8 may be replaced), and nothing is printed on the process's standard streams instead. A missing required argument is logged as an error and a missing number as a warning. If the logger itself raises an error, the conversion's result, or the error that the call has to raise, is the same as without. Where the plugin's logging is missing or broken, importing the module raises an ImportError, and works once it is repaired.",
 ['inputs','configurations','fault_sequences'],"every program, option dictionary, log level and logger threshold, and every call of the logger that may fail",
 T5+"the Python module is never loaded by them.",
 [PY+'py_logger.cpp',PY+'py_logger.h',PY+'python_helpers.cpp',G+'logger.cpp'],[('delivery','py_logger::log, py_logger::log_exception'),('conversion of text','gcode_arc_converter::PyUnicode_SafeFromString')],['records of the Python logger','PyArcWelder.ConvertFile'])
p('P32','Extruder, layer, lift and bounds states follow the print',
 "After every move that the position tracker follows, the state it reports is that of the print. The retracted length of a tool is what was withdrawn and not yet pushed back (never below zero), the extruded length is what a move pushes beyond it, the deretracted length is what it pushes back; the states extruding, retracting, retracted, partially retracted, deretracting, deretracted and primed follow from those lengths and the configured retraction, and the start of an extrusion, retraction or deretraction is reported for the first of consecutive such moves of a tool. A layer starts when a tool extrudes (or, after the first layer, completes a deretraction) at a height above the last extrusion and at least the minimum layer height above the last layer, once the printer was primed below the priming height, within the configured bounds (a box or a circle). Height, layer number, height increments and last extrusion height change only then as stated, a lift is reported exactly while the nozzle is the configured lift or more above the last extrusion without extruding, and the bounds state is that of the current position. A configuration may be copied or assigned with the same result.",
 ['inputs','histories','configurations'],"every history of moves, retractions, lifts and tool changes, under every configuration of lengths, heights and bounds",
 T5+"no test runs the position tracker, and the states depend on the whole history of a print.",
 [G+'gcode_position.cpp',G+'gcode_position.h',G+'position.cpp',G+'extruder.cpp'],[('states','gcode_position::update'),('configuration','gcode_position_args')],['gcode_position::get_current_position','position','extruder'])
p('P33','Welding depends only on the shape of a part and on what came before',
 "Where a part lies on the bed and which way round it is does not change how it is welded: a program shifted by a whole number of millimetres, mirrored or turned by right angles has the same runs of moves replaced by arcs, and each arc is the counterpart of the other one, with the direction reversed by a mirror, the end and centre moved and turned with it, and the same extrusion and feedrate. (Decisions on the brink of a limit may fall either way; a limit on the length of the G-code is about its text.) Nor does what comes later change what was written: the result for a program cut after a command that is no move is the beginning of the result for the whole program.",
 ['inputs','configurations'],"every program of moves and arcs in absolute or relative mode and every option set, in each of the eight orientations and at every place on the bed",
 T5+"each orientation and place takes other branches for quadrants and signs, and no test welds one shape in two places.",
 [A+'segmented_shape.cpp',A+'segmented_arc.cpp',A+'arc_welder.cpp'],[('circle fit','circle::try_create_circle'),('angles and direction','arc::try_create_arc'),('order of output','arc_welder::write_unwritten_gcodes_to_file')],['target files of two runs of arc_welder::process'])
p('P34','Welding a welded file again changes nothing but its header',
 "When a welded file is welded again with the same settings, and the printed numbers kept all their decimals, no further run of moves becomes an arc and no arc is touched: the second result is the first one with one more header. What was welded before in the same file therefore has no influence on what can be welded after it. (Decisions on the brink of a limit may fall either way.)",
 ['inputs','configurations','histories'],"every program of moves, arcs and other commands, and every option set without dynamic precision and without a limit on the length of the G-code",
 T5+"none welds a file, let alone twice.",
 [A+'arc_welder.cpp',A+'segmented_arc.cpp',A+'segmented_shape.cpp'],[('state reset after an arc','arc_welder::process_gcode / segmented_shape::clear'),('reprocessing of the line that ended an arc','arc_welder::process_gcode')],['target files of two runs of arc_welder::process'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
