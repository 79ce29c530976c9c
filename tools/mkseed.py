#!/usr/bin/env python3
"""mkseed.py ID PROPERTY : stdin JSON {"edits":[[file, old, new]...], "needs":..., "what":..., "main": rust source} -> /verif/seeded/ID"""
import json, os, shutil, subprocess, sys
sid, prop = sys.argv[1], sys.argv[2]
j = json.load(sys.stdin)
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
import tempfile
files = {}
for f, a, b in j["edits"]:
    if f not in files:
        t = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        files[f] = [t, t]
    assert files[f][1].count(a) == 1, (f, files[f][1].count(a), a)
    files[f][1] = files[f][1].replace(a, b)
diff = ""
for f, (old, new) in sorted(files.items()):
    with tempfile.TemporaryDirectory() as t:
        for side, text in (("a", old), ("b", new)):
            os.makedirs(os.path.dirname(f"{t}/{side}/{f}"))
            open(f"{t}/{side}/{f}", "w").write(text)
        diff += subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
shutil.copy("/verif/tools/demo.py", d + "/demo.py")
open(d + "/main.rs", "w").write(j["main"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexec python3 "$here/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
