"""Runs PyArcWelder.ConvertFile on request.  A request is a file of 'key<TAB>python expression' lines; '#cb' gives the
callback's behaviour, '#arg' replaces the whole argument, '#again' asks for what is left of so many repetitions of the call.  The answer is 'key<TAB>value' lines, ended by END."""
import ctypes
import gc
import os
import sys
import threading

out = os.fdopen(os.dup(1), "w", encoding="utf-8")
nul = os.open(os.devnull, os.O_WRONLY)
os.dup2(nul, 1)
os.dup2(nul, 2)
sys.path.insert(0, os.environ["VH_BIN"])
sys.path.insert(0, os.environ["VH_DATA"])
import PyArcWelder  # noqa: E402
import octoprint_arc_welder.log as L  # noqa: E402


class Odd(Exception):
    pass


class Cb(object):
    def __init__(self, how):
        self.what, _, k = how.partition("@")
        self.k = int(k or -1)
        self.calls = []
        self.raised = None
        self.bad = ""
        self.args = {}
        self.change = {}
        self.other = None
        self.thread = None

    def __call__(self, *a, **kw):
        n = len(self.calls)
        if len(a) != 1 or kw or type(a[0]) is not dict:
            self.bad = "called with %r %r" % (a, kw)
            self.calls.append({})
            return True
        self.calls.append(dict(a[0]))
        if n == self.k:
            w = self.what
            if w in ("nest", "thread"):
                self.other = {}

                def run():
                    try:
                        mine = dict(self.args, target_path=os.environ["VH_NESTED"], on_progress_received=Cb("mix"), guid="the other")
                        mine.update(self.change)
                        self.other.update(PyArcWelder.ConvertFile(mine))
                    except BaseException as e:
                        self.other["raised"] = repr(e)

                self.thread = threading.Thread(target=run) if w == "thread" else None
                if self.thread:
                    self.thread.start()
                else:
                    run()
                return True
            if w in ("raise", "odd", "exit", "intr"):
                self.raised = {"raise": ValueError("stop here"), "odd": Odd("odd", n), "exit": SystemExit(3), "intr": KeyboardInterrupt()}[w]
                raise self.raised
            # made anew each time, so that a lost reference is a lost object
            return {"false": False, "zero": 0, "neg": -1000 - n, "str": "no %d" % n, "float": 0.0 * n, "list": [], "big": 10 ** (40 + n), "negbig": -10 ** (40 + n)}[w]
        if self.what == "mix":
            return [None, True, 1, 1000 + n][n % 4]
        return None if self.what == "none" else True


def say(k, v):
    out.write("%s\t%s\n" % (k, str(v).replace("\n", " ").replace("\r", " ")))


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)
libc.mallinfo2.restype = Mallinfo2


def again(n, args, how, whole, watch):
    """What is there before and after n calls: blocks, bytes, open files, references to the objects passed."""
    cb = Cb(how)
    for k in args:
        if args[k] is Cb:
            args[k] = cb
    keep = [args, cb, Cb, ConvertFile, None] + [args[k] for k in sorted(args)]

    def one():
        cb.__init__(how)
        if watch:
            L.calls, L.watch, L.keep = 0, [0, int(watch[1]), watch[2]], False
        try:
            if whole is not None:
                r = eval("f(%s)" % whole, {"f": ConvertFile, "args": args})
            else:
                r = ConvertFile(args)
            del r
        except BaseException:
            pass
        cb.calls = cb.raised = L.watch = None
        L.keep = True

    if watch:
        sys.excepthook = lambda *a: None  # printing a traceback fills caches of the interpreter

    def state():
        sys.last_exc = sys.last_value = sys.last_type = sys.last_traceback = None
        gc.collect()
        m = libc.mallinfo2()
        return [sys.getallocatedblocks(), m.uordblks + m.hblkhd, len(os.listdir("/proc/self/fd"))], [sys.getrefcount(o) for o in keep]

    for _ in range(3):
        one()
    best = None
    for _ in range(10):  # a leak shows in every round, the growth of some cache does not
        a, ra = state()
        for _ in range(n):
            one()
        b, rb = state()
        d = [y - x for x, y in zip(a, b)]
        refs = [y - x for x, y in zip(ra, rb)]
        best = d if best is None else [min(x, y) for x, y in zip(best, d)]
        if max(abs(x) for x in refs) == 0 and best[0] < n and best[1] < 16 * n and best[2] < 1:
            break
    sys.excepthook = sys.__excepthook__
    say("blocks", best[0])
    say("bytes", best[1])
    say("files", best[2])
    for o, d in zip(["the dictionary", "the callback", "the callback's class", "the function", "None"] + sorted(args), refs):
        if d:
            say("refs", "%s %+d" % (o, d))


ConvertFile = PyArcWelder.ConvertFile
for line in sys.stdin:
    args, cb, whole, n, watch, change = {}, None, None, 0, None, {}
    for l in open(line.strip(), encoding="utf-8"):
        k, _, v = l.rstrip("\n").partition("\t")
        if k == "#cb":
            cb = Cb(v)
        elif k == "#change":
            change = eval(v)
        elif k == "#arg":
            whole = v
        elif k == "#log":
            watch = v.split()
        elif k == "#again":
            n = int(v)
        else:
            args[k] = (Cb if n else cb) if v == "CB" else eval(v, {"cb": cb, "Cb": Cb, "Odd": Odd, "inf": float("inf"), "nan": float("nan")})
    if n:
        how = cb.what + "@" + str(cb.k)
        cb = None
        again(n, args, how, whole, watch)
        out.write("END\n")
        out.flush()
        continue
    before = {k: repr(v) for k, v in args.items()}
    if cb:
        cb.args = args
        cb.change = change
    if watch:
        printed = os.open(os.environ["VH_PRINTED"], os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(printed, 1)
        os.dup2(printed, 2)
        for l in L.loggers:
            l.setLevel(int(watch[0]))
        L.records, L.calls, L.watch = [], 0, [0, int(watch[1]), watch[2]]
    try:
        if whole is not None:
            r = eval("f(%s)" % whole, {"f": PyArcWelder.ConvertFile, "args": args})
        else:
            r = PyArcWelder.ConvertFile(args)
        say("result", type(r).__name__)
        for k in sorted(r):
            if k != "progress":
                say("r." + k, repr(r[k]))
        for k in sorted(r.get("progress", {})):
            if not k.endswith("_text"):
                say("p." + k, repr(r["progress"][k]))
            else:
                say("t." + k, r["progress"][k].encode("utf-8").hex())
    except BaseException as e:
        say("raised", type(e).__name__)
        say("message", str(e))
        say("same", int(cb is not None and cb.raised is e))
    if watch:
        for l in L.loggers:
            l.setLevel(0)
        L.watch = None
        sys.stderr.flush()
        say("printed", os.fstat(printed).st_size)
        say("printed.start", repr(os.pread(printed, 200, 0)))
        os.dup2(nul, 1)
        os.dup2(nul, 2)
        os.close(printed)
        say("log.calls", L.calls)
        for lv, m in L.records:
            say("l", "%d %s" % (lv, m.encode("utf-8", "surrogatepass").hex()))
    if before != {k: repr(v) for k, v in args.items()}:
        say("changed", 1)
    if cb is not None:
        if cb.thread:
            cb.thread.join()
        if cb.other is not None:
            say("other", cb.other.get("raised", "success=%r cancelled=%r guid=%r" % (cb.other.get("success"), cb.other.get("is_cancelled"), cb.other.get("progress", {}).get("guid"))))
            cb.other = None
        say("calls", len(cb.calls))
        if cb.bad:
            say("bad", cb.bad)
        for i, c in enumerate(cb.calls):
            say("c", " ".join("%s=%r" % (k, c[k]) for k in sorted(c) if not k.endswith("_text")))
    out.write("END\n")
    out.flush()
