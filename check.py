#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [quick|thorough].

Builds the harness from /repo's current tree, runs the generators in parallel with seeds derived from
VERIF_SEED, replays every failure three times, and writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: error of the check.
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = min(8, os.cpu_count() or 1)
sys.path.insert(0, os.path.join(HERE, "tools"))
from spec import SPEC, LEVEL  # noqa: E402


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def repo_stamp():
    h = hashlib.sha256()
    for d in ("GcodeProcessorLib", "ArcWelder", "ArcWelderConsole", "ArcWelderInverseProcessor", "PyArcWelder", "TCLAP"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".in", ".txt", ".cmake")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for p in [os.path.join(HERE, "Makefile")]:
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build(flavour, targets):
    """Rebuild from the current tree; objects of a different tree are thrown away, whatever their time stamps say."""
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(base, flavour)
        stamp, want = os.path.join(d, "stamp"), repo_stamp()
        if not os.path.exists(stamp) or open(stamp).read() != want:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(stamp, "w").write(want)
        r = subprocess.run(["make", "-C", HERE, "-j%d" % NPROC, "--no-print-directory", "REPO=" + REPO, "F=" + flavour] +
                           ["build/%s/%s" % (flavour, t) for t in targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            die("build failed")


def run_env(scratch, flavour, extra=None):
    e = dict(os.environ)
    e.update(extra or {})
    e["VH_SCRATCH"] = scratch
    e["VH_BIN"] = os.path.join(HERE, "build", "fast")
    e["VH_DATA"] = os.path.join(HERE, "data")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C"
    e.pop("PYTHONPATH", None)
    return e


def replay(binary, pid, path, env, timeout=200):
    try:
        r = subprocess.run([binary, "replay", "--prop", pid, "--file", path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -14, "no answer within %d s" % timeout


def known_findings(pid):
    """Lines 'finding: property=<id> match=/<regex on the message>/ <what fails>' of known_findings.txt."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((os.path.join(HERE, m.group(2)), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPEC[pid]
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    tmp = tempfile.mkdtemp(prefix="vh", dir=base)
    os.chmod(tmp, 0o755)
    try:
        code = run(pid, tier, seed, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def run(pid, tier, seed, spec, tmp, t0):
    by = {}
    for ph in spec["phases"]:
        by.setdefault(ph.get("F", "fast"), []).append(("f_" if ph.get("fuzz") else "h_") + ph["h"])
    for t in spec.get("tools", []):
        by.setdefault("fast", []).append(t)
    for f, ts in by.items():
        build(f, sorted(set(ts)))
    tb = time.time() - t0
    cov = {"evaluations": 0, "discards": 0, "rule": "", "samples": [], "counters": {}, "workers": 0}
    distinct, rules, violation, flaky, broken = set(), [], None, [], []
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    vpath = os.path.join(evdir, pid + "-violation.case")
    for f in glob.glob(vpath + "*"):
        os.unlink(f)
    # committed regression cases first: minimal reproductions of defects found earlier
    for pi, ph in enumerate(spec["phases"]):
        if ph.get("fuzz") or violation:
            continue
        fl = ph.get("F", "fast")
        binary = os.path.join(HERE, "build", fl, "h_" + ph["h"])
        env = run_env(tmp, fl)
        for c in sorted(glob.glob(os.path.join(HERE, "regress", pid, "*.case"))):
            rc, out = replay(binary, pid, c, env)
            cov["evaluations"] += 1
            cov["counters"]["regression_cases"] = cov["counters"].get("regression_cases", 0) + 1
            if rc not in (0, 2):
                if all(replay(binary, pid, c, env)[0] not in (0, 2) for _ in range(2)):
                    shutil.copy(c, vpath)
                    violation = (vpath, last_line(out) or "ended with %d" % rc)
                    break
        for path, what in known_findings(pid):
            rc, out = replay(binary, pid, path, env)
            if rc not in (0, 2):
                print("KNOWN-FINDING: property=%s %s" % (pid, what), flush=True)
    for pi, ph in enumerate(spec["phases"]):
        if violation:
            break
        if ph.get("tier") and ph["tier"] != tier:
            continue
        fl = ph.get("F", "fast")
        cases = ph["quick"] if tier == "quick" else ph["thorough"]
        limit = ph.get("qtime", 150) if tier == "quick" else ph.get("ttime", 1500)
        if ph.get("fuzz"):
            violation = run_fuzz(pid, tier, seed, ph, tmp, cov, rules, distinct, cases, limit, vpath)
            continue
        binary = os.path.join(HERE, "build", fl, "h_" + ph["h"])
        nw = ph.get("workers", NPROC)
        procs = []
        for w in range(nw):
            sc = os.path.join(tmp, "p%dw%d" % (pi, w))
            os.mkdir(sc)
            os.chmod(sc, 0o777 if spec.get("unprivileged") else 0o755)
            out = os.path.join(tmp, "out%d_%d" % (pi, w))
            cmd = [binary, "run", "--prop", pid, "--seed", str(seed), "--worker", str(w + 100 * pi), "--out", out, "--tier", tier, "--cases", str(cases), "--time", str(limit)]
            procs.append((w, out, sc, subprocess.Popen(cmd, env=run_env(sc, fl, ph.get("env")), stdout=open(out + ".stdout", "wb"), stderr=subprocess.STDOUT)))
        cov["workers"] += nw
        end = time.time() + limit + 240
        cands = []
        for w, out, sc, p in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -9
            tail = open(out + ".stdout", "rb").read()[-3000:].decode("utf-8", "replace")
            if os.path.exists(out + ".json"):
                try:
                    j = json.load(open(out + ".json"))
                except ValueError as e:
                    die("worker %d wrote a broken report: %s" % (w, e))
                cov["evaluations"] += j["evaluations"]
                cov["discards"] += j["discards"]
                for k, v in j["stat"].items():
                    cov["counters"][k] = cov["counters"].get(k, 0) + v
                distinct.update(j["hashes"])
                if j["rule"] not in rules:
                    rules.append(j["rule"])
                if len(cov["samples"]) < 3:
                    cov["samples"] += j["samples"][:1]
            if rc == 0:
                continue
            if rc == 1 and os.path.exists(out + ".fail"):
                cands.append((out + ".fail", out + ".orig", "", sc))
            elif rc < 0 and os.path.exists(out + ".cur"):
                cands.append((out + ".cur", out + ".cur", "ended by signal %d\n%s" % (-rc, tail), sc))
            else:
                # for example memory that was damaged by the code under test and only ends the program after its last case;
                # a later phase (sanitizers) may still name the case
                print(tail)
                broken.append("worker %d of phase %d ended with %d" % (w, pi, rc))
        for path, orig, note, sc in cands:
            env = run_env(sc, fl)
            hits, msg = 0, ""
            for p in ([path, orig] if path != orig else [path]):
                hits = 0
                for _ in range(3):
                    rc, out = replay(binary, pid, p, env)
                    if rc not in (0, 2):
                        if rc == 3:
                            die("replay could not run: " + out)
                        hits += 1
                        msg = last_line(out) if rc == 1 else "ended with %d: %s" % (rc, crash_line(out))
                if hits == 3:
                    shutil.copy(p, vpath)
                    violation = (vpath, msg)
                    break
            if violation:
                break
            first = open(path, errors="replace").readline()[:600] if path.endswith(".fail") else ""
            flaky.append({"note": note[-500:] or msg or first.strip(), "replays_failed": hits})
    cov["distinct_nontrivial"] = len(distinct)
    cov["rule"] = " | ".join(rules) or spec.get("rule", "see DESIGN.md")
    cov["build_s"] = round(tb, 1)
    if flaky:
        cov["not_reproduced"] = flaky
    if not cov["samples"]:
        cov["samples"] = ["(no non-trivial case short enough to print in this run)"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL.get(pid, "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, cov["evaluations"], len(distinct), time.time() - t0))
    for f in flaky:
        print("not reproduced on replay: " + str(f)[:1500])
    if violation:
        print(violation[1][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]), flush=True)
        return 1
    if broken:
        die("; ".join(broken))
    if cov["evaluations"] == 0:
        die("no case was evaluated")
    return 0


def last_line(t):
    l = [x for x in t.strip().splitlines() if x.strip()]
    for x in l:
        if x.startswith("FAIL"):
            return x
    return l[-1] if l else ""


def crash_line(t):
    for x in t.splitlines():
        if "ERROR: AddressSanitizer" in x or "WARNING: ThreadSanitizer" in x or "runtime error:" in x or "VH-HANG" in x:
            return x.strip()
    return last_line(t)


def run_fuzz(pid, tier, seed, ph, tmp, cov, rules, distinct, runs, limit, vpath):
    fl = ph.get("F", "fuzz")
    binary = os.path.join(HERE, "build", fl, "f_" + ph["h"])
    procs = []
    for w in range(NPROC):
        d = os.path.join(tmp, "fz_%s_%d" % (ph["h"], w))
        os.makedirs(d + "/corpus")
        os.makedirs(d + "/art")
        seeds = os.path.join(HERE, "corpus", ph.get("corpus", ph["h"]))
        args = [binary, "-runs=%d" % runs, "-seed=%d" % (seed * 131 + w + 1), "-max_total_time=%d" % limit, "-max_len=%d" % ph.get("maxlen", 2048), "-timeout=120",
                "-rss_limit_mb=3000", "-print_final_stats=1", "-dict=" + os.path.join(HERE, "corpus", "gcode.dict"), "-artifact_prefix=%s/art/" % d, d + "/corpus"]
        if os.path.isdir(seeds) and w % 4 != 3:
            args.append(seeds)
        procs.append((w, d, subprocess.Popen(args, env=run_env(d, fl), stdout=open(d + "/log", "wb"), stderr=subprocess.STDOUT)))
    cov["workers"] += NPROC
    hit = None
    for w, d, p in procs:
        try:
            p.wait(limit + 300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(d + "/log", "rb").read().decode("utf-8", "replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        if m:
            cov["evaluations"] += int(m.group(1))
            cov["counters"]["fuzz_executions"] = cov["counters"].get("fuzz_executions", 0) + int(m.group(1))
        n = 0
        for f in sorted(os.listdir(d + "/corpus")):
            distinct.add("fz" + f)
            n += 1
            if len(cov["samples"]) < 4 and n == 3 * (w + 1):
                cov["samples"].append(repr(open(d + "/corpus/" + f, "rb").read()[:400]))
        cov["counters"]["fuzz_corpus"] = cov["counters"].get("fuzz_corpus", 0) + n
        arts = sorted(os.listdir(d + "/art"))
        for a in arts:
            if hit or not a.startswith(("crash-", "timeout-", "leak-", "oom-")):
                continue
            path, bad, msg = d + "/art/" + a, 0, ""
            for _ in range(3):
                try:
                    r = subprocess.run([binary, "-timeout=120", "-rss_limit_mb=3000", path], env=run_env(d, fl), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                    o = r.stdout.decode("utf-8", "replace")
                    if r.returncode:
                        bad += 1
                        msg = crash_line(o)
                        for x in o.splitlines():
                            if x.startswith("ORACLE"):
                                msg = x
                except subprocess.TimeoutExpired:
                    bad += 1
                    msg = "hang"
            if bad == 3:
                vp = vpath + "-fuzz-" + ph["h"]
                shutil.copy(path, vp)
                hit = (vp, "fuzz target %s: %s" % (ph["h"], msg))
        if not arts and p.returncode not in (0, None):
            print(log[-2000:])
            die("fuzzer %s worker %d ended with %s" % (ph["h"], w, p.returncode))
    r = ph.get("rule", "coverage-guided bytes; counted as non-trivial when the input reached new code")
    if r not in rules:
        rules.append(r)
    return hit


if __name__ == "__main__":
    main()
