"""What each check runs.  phases: harness h_<h> (or fuzz target f_<h>) in build flavour F; cases per worker for the two tiers."""
LEVEL = {}
A_TEXT = ["G-code lines hold no NUL or other control characters; coordinates are decimal; arcs in the source are in I/J form",
          "the reference machine in src/machine.hpp (written from the Marlin documentation, sharing no code with the tool) is right"]


def weld(q, t):
    return {"phases": [{"h": "weld", "quick": q, "thorough": t}], "assumptions": A_TEXT}


SPEC = {
    "P01": weld(14000, 250000),
    "P02": weld(14000, 250000),
    "P03": weld(14000, 250000),
    "P04": weld(14000, 250000),
    "P05": weld(14000, 250000),
    "P06": weld(14000, 250000),
    "P07": weld(14000, 250000),
    "P13": {"phases": [{"h": "str", "quick": 20000, "thorough": 400000}], "assumptions": A_TEXT},
    "P14": {"phases": [{"h": "str", "quick": 20000, "thorough": 400000}], "assumptions": A_TEXT},
    "P15": {"phases": [{"h": "rt", "quick": 12000, "thorough": 200000}], "assumptions": A_TEXT},
    "P19": {"phases": [{"h": "str", "quick": 8000, "thorough": 150000}, {"h": "cli", "quick": 700, "thorough": 12000}], "tools": ["ArcStraightener"], "assumptions": A_TEXT},
    "P10": {"phases": [{"h": "unit", "quick": 120000, "thorough": 3000000}, {"h": "unit", "F": "asan", "quick": 20000, "thorough": 400000}], "assumptions": ["lines hold no control characters but tab and a final carriage return"]},
    "P32": {"phases": [{"h": "unit", "quick": 60000, "thorough": 2000000}, {"h": "unit", "F": "asan", "quick": 3000, "thorough": 40000}], "assumptions": A_TEXT},
    "P11": {"phases": [{"h": "unit", "quick": 16000, "thorough": 300000}, {"h": "unit", "F": "asan", "quick": 800, "thorough": 10000}], "assumptions": A_TEXT},
    "P12": {"phases": [{"h": "unit", "quick": 40000, "thorough": 800000}, {"h": "unit", "F": "asan", "quick": 8000, "thorough": 150000}], "assumptions": ["the C library prints a double exactly with %.1100f"]},
    "P18": {"phases": [{"h": "unit", "quick": 60000, "thorough": 1200000}, {"h": "unit", "F": "asan", "quick": 8000, "thorough": 150000}], "assumptions": []},
    "P23": {"phases": [{"h": "cli", "quick": 1200, "thorough": 20000}], "tools": ["ArcWelder"], "assumptions": A_TEXT},
    "P08": {"phases": [{"h": "fs", "quick": 450, "thorough": 15000}], "tools": ["ArcWelder", "ArcStraightener", "faultfs.so"], "unprivileged": True, "assumptions": A_TEXT + ["the tools reach the file system through libc, where faults are injected"]},
    "P09": {"phases": [{"h": "any", "quick": 2000, "thorough": 40000, "env": {"VH_SPAWN": "1"}}, {"h": "any", "F": "asan", "quick": 1200, "thorough": 60000}, {"h": "any", "quick": 8, "thorough": 400, "qtime": 60, "env": {"VH_VALGRIND": "1"}},
                       {"h": "weld", "fuzz": True, "F": "fuzz", "quick": 9000, "thorough": 1000000, "qtime": 40, "maxlen": 1024}, {"h": "str", "fuzz": True, "F": "fuzz", "quick": 6000, "thorough": 600000, "qtime": 40, "maxlen": 1024}],
            "tools": ["ArcWelder", "ArcStraightener"], "assumptions": ["lines of at most a few thousand bytes; at most six arcs per input given to the straightener, each of at most 65534 segments"]},
    "P20": {"phases": [{"h": "run", "quick": 6000, "thorough": 100000}], "assumptions": A_TEXT},
    "P22": {"phases": [{"h": "py", "quick": 2000, "thorough": 50000}], "tools": ["ArcWelder", "PyArcWelder.so", "clockstep.so"], "assumptions": A_TEXT + ["CPython 3.12; the plugin's logging module is replaced by a stand-in"]},
    "P24": {"phases": [{"h": "run", "quick": 2200, "thorough": 40000}], "assumptions": A_TEXT},
    "P16": weld(10000, 150000),
    "P17": weld(14000, 250000),
    "P21": weld(14000, 200000),
    "P25": weld(20000, 400000),
    "P26": {"phases": [{"h": "rep", "quick": 2500, "thorough": 40000}, {"h": "rep", "F": "asan", "quick": 250, "thorough": 4000}], "tools": ["ArcWelder", "ArcStraightener"], "assumptions": A_TEXT},
    "P27": {"phases": [{"h": "par", "quick": 700, "thorough": 15000}, {"h": "par", "F": "tsan", "quick": 90, "thorough": 3000}], "assumptions": A_TEXT + ["threads use files and logger objects of their own"]},
    "P28": {"phases": [{"h": "same", "quick": 6000, "thorough": 120000}], "assumptions": A_TEXT + ["respellings are those the documentation of G-code allows; a repeated parameter letter has no agreed reading"]},
    "P29": {"phases": [{"h": "res", "quick": 500, "thorough": 12000}], "assumptions": A_TEXT + ["allocations go through operator new (the code under test uses no other)"]},
    "P30": {"phases": [{"h": "py", "quick": 700, "thorough": 15000}], "tools": ["PyArcWelder.so"], "assumptions": A_TEXT + ["CPython 3.12; the plugin's logging module is replaced by a stand-in"]},
    "P33": {"phases": [{"h": "same", "quick": 6000, "thorough": 60000}], "assumptions": A_TEXT + ["coordinates of at most a few metres; radius limit at most 400 mm"]},
    "P34": {"phases": [{"h": "same", "quick": 8000, "thorough": 120000}], "assumptions": A_TEXT + ["numbers of the source have at most six decimals, which the tool is told to keep"]},
    "P31": {"phases": [{"h": "py", "quick": 2000, "thorough": 50000}], "tools": ["PyArcWelder.so"], "assumptions": A_TEXT + ["CPython 3.12; the plugin's logging module is replaced by a stand-in built on the standard logging classes"]},
}
