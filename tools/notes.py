W = "Seeded random search over structured programs; it samples, it does not prove. Trusts the reference machine and aligner in src/machine.hpp and src/weld.hpp."
S = "Seeded random search; it samples, it does not prove. Trusts the arc geometry and segment models in src/straight.hpp, written from the published firmware sources."
NA = {}
NOTE = {
 "P01": ("property-based testing: generated programs, each arc measured against the moves it replaced", W + " Tolerances: half the configured resolution plus coordinate rounding; backtracking below the resolution is not judged."),
 "P02": ("property-based testing: differential execution of source and welded program on a reference machine", W),
 "P03": ("property-based testing: filament conservation invariant over generated programs", W),
 "P04": ("property-based testing: alignment of output with source (every line once, verbatim, in order)", W),
 "P05": ("property-based testing: eligibility predicate over every replaced run", W),
 "P06": ("property-based testing: well-formedness and limit predicate over every arc text", W),
 "P07": ("property-based testing: recomputed counts, lengths and histograms compared with the report", W),
 "P10": ("property-based testing: lines built from known pieces, the parse compared with the pieces (fast and AddressSanitizer builds)", "Seeded random sampling of line shapes. Lines built from pieces whose reading is certain; spellings on which G-code dialects disagree are left out of the domain."),
 "P11": ("stateful property-based testing: random command histories with undo and growth, compared step by step with a reference model and with a second tracker of another size", "Seeded random sampling. Trusts the model in src/props_unit.cpp (Machine plus tool offsets and retraction)."),
 "P12": ("property-based testing: printed text compared with the exact decimal expansion in big-digit arithmetic", "Seeded random sampling of doubles, biased to ties, neighbours of powers of ten and extremes."),
 "P18": ("stateful (model-based) property-based testing against std::deque", "Seeded random operation sequences on two containers of each kind, also under AddressSanitizer."),
 "P13": ("property-based testing: generated arcs per firmware, emitted moves measured against the exact circle, ends, direction, sweep and Z ramp", S),
 "P14": ("property-based testing: differential execution and alignment of source and straightened program", S),
 "P15": ("property-based testing: weld then straighten, Frechet distance to the source path and state comparison", S + " Distance is judged against the sum of the stated errors, so a defect smaller than those is not seen here."),
 "P19": ("property-based testing: predicates and differential runs over types, versions and arguments, in the library and as a program", S),
 "P23": ("property-based testing: differential runs of the program against the library over generated option sets, refusal predicate", "Seeded random sampling of option combinations. The library is the oracle for the effect of an option; its own correctness is the business of the other properties."),
 "P16": ("property-based testing: metamorphic (settings off) and predicate per arc", W),
 "P17": ("property-based testing: rate predicate over consecutive merged moves", W),
 "P21": ("property-based testing: header read back and compared with the settings", W),
 "P25": ("property-based testing: constructed clean arcs must be recognised", W),
 "P08": ("property-based testing with fault injection: random programs and file layouts, a failing, short, killed or refused file operation at every numbered point, cancellation; files compared afterwards", "Faults are injected in libc calls of the two programs (preload), by resource limits, permissions and kills. One fault, or one kind of fault from a point on, per run. A process kill is covered, a power loss is not."),
 "P09": ("coverage-guided fuzzing (libFuzzer with AddressSanitizer and UBSan) of both tools, and property-based testing of damaged programs, twice in one process and in another; some under valgrind", "Bounded input sizes; memory is watched by AddressSanitizer, UBSan and (few cases) valgrind memcheck."),
 "P20": ("property-based testing: metamorphic comparison of runs under different observation settings and of programs cut off at random lines", W),
 "P22": ("property-based testing: the compiled module in a Python interpreter against the library and the command-line program, with random argument dictionaries and callback behaviours", "Seeded random sampling. Every update is made due by a stepping processor clock; CPython of the sandbox only."),
 "P24": ("property-based testing: history of progress updates checked as an invariant, stops at every update, what was written aligned with the lines read", W),
 "P26": ("property-based testing: printed tables, settings, progress and summaries read back and compared with independently counted values", "Seeded random sampling. The wording is taken as it is; numbers, units, rows and the presence of warnings are judged. Trusts the counts recomputed by the reference machine and, for programs, the library's own result (P07's business)."),
 "P27": ("property-based testing: histories and schedules of conversions (sequence, nesting, threads) compared with each conversion alone in a fresh process; ThreadSanitizer build", "Seeded random sampling; thread schedules are those the operating system gives, with ThreadSanitizer watching for unordered accesses."),
 "P28": ("metamorphic property-based testing: random programs against respellings of themselves, through both tools", "Seeded random sampling; respellings of commands the tools know, without repeated letters."),
 "P29": ("property-based testing with counted allocations: random programs repeated few and many times (peak, time), and converted again and again with every kind of ending (what is held)", "Seeded random sampling; growth by repetition of a program; up to some hundred kilobytes of text."),
 "P31": ("property-based testing: random calls of the compiled module with a recording or failing Python logger, against the messages of the C++ library run with the same settings", "Seeded random sampling. Messages below the chosen level may or may not arrive; the logger fails by raising an Exception, not by ending the process."),
 "P32": ("model-based property-based testing: random prints against an integer reference model of extruder, layer, lift and bounds states", "Seeded random sampling. All numbers are whole thousandths, so that no comparison falls within the tolerance of the tracker; no firmware offsets (P11's business)."),
 "P33": ("metamorphic property-based testing: random programs against themselves shifted, mirrored, turned by right angles or cut short", "Seeded random sampling. A difference does not count when limits changed by a thousandth, or an equally good circle, also change the decision; radius limit at most 400 mm, no limit on the length of the G-code."),
 "P34": ("metamorphic property-based testing: results of random programs welded again with the same options, aligned with themselves", "Seeded random sampling. A further arc does not count when limits changed by a thousandth change the first result as well."),
 "P30": ("property-based testing: random calls repeated in one interpreter; allocated blocks and bytes, open files and reference counts before and after", "Seeded random sampling. A growth counts when it shows in each of ten rounds, so caches of the interpreter raise no alarm."),
}
