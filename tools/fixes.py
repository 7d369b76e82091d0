#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo; the property of each is given here."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("while other workers read them", "M03"), ("parallel_info", "M04"), ("copied freed region pools", "M04"), ("previous image", "M04"), ("opposite polarity", "M06"), ("opencv mser computed", "M06"), ("opencv3", "M06"), ("leaked", "M08"), ("copying mser results", "M07"), ("counters were not", "M08"),
       ("block size of the region pools", "M08"), ("past the heap", "M08"), ("collected points of four", "M02"), ("fewer pixels than partitions", "M02"),
       ("lost diagonal links", "M02"), ("rectangle missed", "M07"), ("value mask", "M10"), ("masked pixels", "M10")]
def prop(s):
    if s.startswith("fix: ["): return s[6:9]
    for k, p in MAP:
        if k in s: return p
    return "M01"
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
body = subprocess.run(["git", "-C", "/repo", "log", "--format=%B"], stdout=subprocess.PIPE, text=True).stdout
taken_back = [l.split()[3][:7] for l in body.splitlines() if l.startswith("This reverts commit")]
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:") and h[:7] not in taken_back: fixed.append(f"fixed: property={prop(s)} {h} {s[5:].split('] ')[-1]}")
p = V + "/known_findings.txt"
old = [l for l in open(p).read().splitlines() if not l.startswith("fixed:")] if os.path.exists(p) else []
open(p, "w").write("\n".join(old + fixed) + "\n")
