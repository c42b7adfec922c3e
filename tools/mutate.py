#!/usr/bin/env python3
"""Mutation testing of the checks (maintenance; no check uses it).
mutate.py OUT.jsonl SEED MAXN FILE...   FILE relative to the repository.  Works in scratch copies below /tmp/mut."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, queue
REPO, VERIF, TOP = os.environ.get('MUT_REPO', '/repo'), os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '/tmp/mut'
NW = int(os.environ.get('MUT_WORKERS', '7'))
T = os.environ.get('MUT_TIME', '4')
LIB = [('weld', p) for p in ('P05', 'P02', 'P01', 'P04', 'P03', 'P06', 'P07', 'P16', 'P17', 'P21', 'P25')] + [('run', 'P20'), ('run', 'P24'), ('same', 'P28'), ('res', 'P29'), ('par', 'P27')]
UNIT = [('unit', p) for p in ('P10', 'P11', 'P12', 'P18', 'P32')]
STR = [('str', 'P13'), ('str', 'P14'), ('str', 'P19'), ('rt', 'P15'), ('same', 'P28'), ('res', 'P29'), ('par', 'P27'), ('cli', 'P19'), ('rep', 'P26')]
PLAN = {'ArcWelder/': LIB + [('rep', 'P26'), ('rt', 'P15'), ('fs', 'P08'), ('any', 'P09')], 'GcodeProcessorLib/': UNIT + LIB + STR + [('rep', 'P26'), ('any', 'P09')],
        'ArcWelderInverseProcessor/ArcWelderInverseProcessor': [('cli', 'P19'), ('rep', 'P26'), ('fs', 'P08'), ('any', 'P09')],
        'ArcWelderInverseProcessor/': STR + [('any', 'P09'), ('fs', 'P08')], 'ArcWelderConsole/': [('cli', 'P23'), ('rep', 'P26'), ('fs', 'P08')], 'PyArcWelder/': [('py', 'P22'), ('py', 'P30'), ('py', 'P31')]}
def plan(f):
    for k in PLAN:
        if f.startswith(k): return PLAN[k]
def mask(src):
    """comments, strings and preprocessor lines blanked out"""
    o = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r'[^\n]', '\x01', m.group(0)), src, flags=re.S)
    return re.sub(r'(?m)^[ \t]*#[^\n]*', lambda m: '\x01' * len(m.group(0)), o)
SWAP = [(r'(?<=\s)<(?=\s)', '<='), (r'(?<=\s)>(?=\s)', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'(?<=[\w)\]] )\+(?= [\w(])', '-'), (r'(?<=[\w)\]] )-(?= [\w(])', '+'), (r'(?<=[\w)\]] )\*(?= [\w(])', '/'), (r'(?<=[\w)\]] )/(?= [\w(])', '*'), (r'\+=', '-='), (r'-=', '+='),
        (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])2(?![\w.])', '3'),
        (r'\bif \((?!\s*!)', 'if (!!!'), (r'(?<=[(\s])!(?=[\w(])', ''), (r'\bbreak;', ';'), (r'\bx\b', 'y'), (r'\by\b', 'z'), (r'\bp_cur_pos\b', 'p_pre_pos'), (r'\bp_pre_pos\b', 'p_cur_pos')]
def mutants(f):
    src = open(os.path.join(REPO, f), newline='', errors='surrogateescape').read()
    m = mask(src); out = []
    skip = re.compile(r'log\(|stream\s*<<|std::cout|stream\.|\bstream <<|_log_')
    pos = 0
    for line, ml in zip(src.split('\n'), m.split('\n')):
        code = ml.replace('\x01', ' ')
        if code.strip() and not skip.search(line):
            for a, b in SWAP:
                for x in re.finditer(a, ml):
                    if b == 'if (!!!':
                        # negate the whole single-line condition
                        y = re.match(r'if \((.*)\)\s*\{?\s*$', ml[x.start():].rstrip('\x01 \r'))
                        if not y: continue
                        new = line[:x.start()] + 'if (!(' + line[x.start() + 4:x.start() + 4 + len(y.group(1))] + '))' + line[x.start() + 5 + len(y.group(1)):]
                    else: new = line[:x.start()] + b + line[x.end():]
                    out.append((pos, line, new))
            s = code.strip()
            if re.match(r'^[\w.\->\[\]:]+(\s*[-+*/|]?=[^=]|\().*;$', s) and not re.match(r'^(return|delete|case|default|using|typedef|const|static|std::\w+ )', s):
                out.append((pos, line, re.match(r'\s*', line).group(0) + ';'))
        pos += len(line) + 1
    return [(f, p, o, n) for p, o, n in out if o != n]
def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def targets(f):
    t = sorted(set('h_' + h for h, _ in plan(f)))
    for h, _ in plan(f):
        if h in ('cli', 'fs', 'any', 'rep'): t += ['ArcWelder', 'ArcStraightener', 'faultfs.so']
        if h == 'py': t += ['PyArcWelder.so', 'clockstep.so', 'ArcWelder']
    return sorted(set(t))
def make(d, f):
    B = d + '/build/fast'
    return run(['make', '-C', VERIF, '-s', '-j2', 'REPO=' + d + '/repo', 'B=' + B, 'F=fast'] + [B + '/' + t for t in targets(f)])
def worker(w, q, out, lock, files):
    d = TOP + '/%d' % w
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(REPO, d + '/repo', ignore=shutil.ignore_patterns('_build', '.git'))
    for f in sorted(set(files)):
        r = make(d, f)
        if r.returncode: print(r.stdout.decode()[-2000:]); return
    B = d + '/build/fast'
    env = dict(os.environ, VH_SCRATCH='/dev/shm', VH_BIN=B, VH_DATA=VERIF + '/data', LC_ALL='C')
    while True:
        try: n, (f, p, o, new) = q.get_nowait()
        except queue.Empty: return
        path = d + '/repo/' + f
        src = open(path, newline='', errors='surrogateescape').read()
        open(path, 'w', newline='', errors='surrogateescape').write(src[:p] + new + src[p + len(o):])
        t0 = time.time(); r = make(d, f); res = None
        if r.returncode: res = 'nobuild'
        else:
            for h, pid in plan(f):
                o2 = d + '/o'
                for x in ('.fail', '.json'):
                    if os.path.exists(o2 + x): os.unlink(o2 + x)
                try: rc = run(['prlimit', '--as=6000000000', B + '/h_' + h, 'run', '--prop', pid, '--seed', '77', '--worker', '0', '--out', o2, '--tier', 'quick', '--cases', '1000000', '--time', T], env=env, timeout=150).returncode
                except subprocess.TimeoutExpired: rc = -99
                if rc != 0 or os.path.exists(o2 + '.fail'): res = pid; break
        open(path, 'w', newline='', errors='surrogateescape').write(src)
        with lock:
            out.write(json.dumps({'file': f, 'line': src[:p].count('\n') + 1, 'old': o.strip(), 'new': new.strip(), 'result': res or 'SURVIVED', 'time': round(time.time() - t0)}) + '\n'); out.flush()
def main():
    ms = []
    for f in sys.argv[4:]: ms += mutants(f)
    if os.environ.get('MUT_AGAIN'): # only those that survived an earlier run
        again = [json.loads(l) for l in open(os.environ['MUT_AGAIN'])]; again = {(d['file'], d['old'], d['new']) for d in again if d['result'] == 'SURVIVED'}
        ms = [m for m in ms if (m[0], m[2].strip(), m[3].strip()) in again]
    random.Random(int(sys.argv[2])).shuffle(ms)
    if os.path.exists(sys.argv[1]): # resumed
        done = [json.loads(l) for l in open(sys.argv[1])]; done = {(d['file'], d['line'], d['old'], d['new']) for d in done}; srcs = {f: open(os.path.join(REPO, f), newline='', errors='surrogateescape').read() for f in sys.argv[4:]}
        ms = [m for m in ms if (m[0], srcs[m[0]][:m[1]].count('\n') + 1, m[2].strip(), m[3].strip()) not in done]
    print(len(ms), 'mutants'); ms = ms[:int(sys.argv[3])]
    if os.environ.get('MUT_LIST'): return
    q = queue.Queue(); [q.put((i, m)) for i, m in enumerate(ms)]
    lock = threading.Lock(); out = open(sys.argv[1], 'a')
    ts = [threading.Thread(target=worker, args=(w, q, out, lock, sys.argv[4:])) for w in range(NW)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(TOP, ignore_errors=True)
main()
