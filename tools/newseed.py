#!/usr/bin/env python3
"""newseed.py ID PROP FILE NEEDS BREAKS  (stdin: OLD ===== NEW [@@@@@ FILE2 line, OLD ===== NEW ...]) -> writes patch.diff and meta.json, copies the demo kit"""
import sys, subprocess, json, os, shutil, glob
R = os.environ.get("SEED_REPO", "/repo")
id, prop, f, needs, breaks = sys.argv[1:6]
d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
for part in sys.stdin.read().split("@@@@@\n"):
    old, new = part.split("=====\n")
    ff = f
    if old.startswith("FILE "): ff, old = old.split("\n", 1); ff = ff[5:]
    p = R + "/" + ff
    s = open(p, encoding="latin-1", newline="").read()
    if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    n = s.count(old)
    if n != 1: subprocess.run(["git","-C",R,"checkout","--","."]); sys.exit(f"{ff}: {n} matches")
    open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
o = subprocess.run(["git","-C",R,"diff","--binary"], stdout=subprocess.PIPE).stdout
open(d + "/patch.diff", "wb").write(o)
subprocess.run(["git","-C",R,"checkout","--","."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for k in glob.glob("/verif/tools/demokit/*"):
    if not os.path.exists(d + "/" + os.path.basename(k)): shutil.copy(k, d)
