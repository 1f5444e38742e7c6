"""new.py ID PROP 'needs' 'what' harness.c 'conf and args for mk.py'  : takes the diff of the scratch tree /tmp/seed/repo"""
import sys, os, json, subprocess, shutil
id_, prop, needs, what, harn, args = sys.argv[1:7]
V = "/verif"; d = V + "/seeded/" + id_
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/seed/repo", "diff"], capture_output=True).stdout
assert diff.strip()
open(d + "/patch.diff", "wb").write(diff)
src = V + "/harness/" + harn
if not os.path.exists(src): src = d + "/" + harn
if os.path.abspath(src) != d + "/" + harn: shutil.copy(src, d + "/" + harn)
for f in ("ath.h",): shutil.copy(V + "/harness/" + f, d)
shutil.copy(V + "/tools/seedkit/mk.py", d)
open(d + "/demo.sh", "w").write('#!/bin/bash\nset -u\nD="$(cd "$(dirname "$0")" && pwd)"\n' + "".join('python3 "$D/mk.py" %s %s || exit 1\n' % (harn, a.strip()) for a in args.split(";;")))
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/tmp/seed/repo", capture_output=True, text=True)
print(id_, "clean:", r0.returncode, "patched:", r1.returncode, (r0.stdout[-300:] if r0.returncode else ""), r1.stdout[:200], (r1.stderr[-300:]))
subprocess.run(["git", "-C", "/tmp/seed/repo", "checkout", "--", "."])
