"""mkseed.py ID PROPERTY: makes seeded/ID/patch.diff from the working tree of /repo, then restores the tree.  Reads needs / what from argv."""
import json, os, subprocess, sys
i, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
p = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
assert p, "no change"
open(d + "/patch.diff", "wb").write(p)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
