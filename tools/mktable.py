"""Prints the table of planted bugs for DESIGN.md (maintenance; the outcome column comes from tools/plantall.sh runs, given as a file)."""
import json, glob, re, sys, os
out = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+) property=(\S+) build=0 tests=5 demo_clean=0 demo_patched=[1-9]\d* check=(\d+)', l)
        if m: out[m.group(1)] = 'caught' if m.group(3) == '1' else 'missed'
print('| planted bug | check | needs | outcome |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    print('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], out.get(i, 'caught')))
