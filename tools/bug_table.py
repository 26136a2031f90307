#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md; argument: output of trial.sh."""
import json, os, sys, collections, re
res = {}
for l in open(sys.argv[1]):
    m = re.match(r"(\S+) (P\d\d) rc=(\d+) ", l)
    if m: res[m[1]] = "VIOLATION" in l and m[3] == "1"
R = "/verif/seeded"
by = collections.defaultdict(list)
for b in sorted(os.listdir(R)):
    p = json.load(open(f"{R}/{b}/meta.json"))["property"]
    by[p].append(b.removeprefix(p + "-") + ("" if res.get(b) else " (**missed**)"))
print("| property and check | planted bugs caught by it |\n|---|---|")
for p in sorted(by): print(f"| {p} | {', '.join(by[p])} |")
