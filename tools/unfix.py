#!/usr/bin/env python3
"""Maintenance: reverts each fix in a scratch copy, confirms that the check reports it again, and keeps the shrunk failure as regress/<ID>/<commit>.case.
unfix.py [commit...]"""
import os, re, shutil, subprocess, sys, glob
sys.path.insert(0, '/verif/tools')
from spec import SPEC
W = '/tmp/unfix'; VERIF = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def main():
    shutil.rmtree(W, ignore_errors=True); sh('git clone -q /repo %s' % W)
    sh('git -C %s config user.email a@b; git -C %s config user.name a' % (W, W))
    for l in open(VERIF + '/known_findings.txt'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if not m or (len(sys.argv) > 1 and m.group(2) not in sys.argv[1:]): continue
        pid, com, what = m.groups()
        sh('git -C %s reset -q --hard origin/HEAD' % W)
        r = sh('git -C %s revert -n %s' % (W, com))
        if r.returncode:
            sh('git -C %s revert --abort' % W); sh('git -C %s reset -q --hard origin/HEAD' % W); print(pid, com, 'CONFLICT', what, flush=True); continue
        env = dict(os.environ, VERIF_REPO=W, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        # a private copy of the machinery, so that /verif's build and evidence stay alone
        X = '/tmp/unfixv'
        os.makedirs(X, exist_ok=True); sh('rsync -a --delete --exclude .git --exclude build --exclude seeded --exclude evidence %s/ %s/ || cp -a %s/. %s/' % (VERIF, X, VERIF, X))
        if not os.environ.get('KEEP_REGRESS'): shutil.rmtree(X + '/regress', ignore_errors=True)
        r = sh('python3 %s/check.py %s quick' % (X, pid), env=env)
        f = X + '/evidence/%s-violation.case' % pid
        if r.returncode == 1 and os.path.exists(f):
            d = VERIF + '/regress/' + pid; os.makedirs(d, exist_ok=True)
            if os.path.getsize(f) < 20000: shutil.copy(f, d + '/' + com + '.case')
            print(pid, com, 'reported', os.path.getsize(f), [x for x in r.stdout.splitlines() if x.startswith('FAIL')][:1], flush=True)
        else: print(pid, com, 'NOT REPORTED rc=%d' % r.returncode, what, r.stdout[-300:] if r.returncode not in (0, 1) else '', flush=True)
    shutil.rmtree(W, ignore_errors=True); shutil.rmtree('/tmp/unfixv', ignore_errors=True)
main()
