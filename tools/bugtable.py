#!/usr/bin/env python3
"""bugtable.py LOG... : markdown table of seeded/* with how the quick check of the property catches each (from logs of earlier runs, later lines win)"""
import sys, os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d)(.*)", l)
        if not m: continue
        case = re.search(r"failing input: (\w+):", m[4])
        ob = re.search(r"(\d+)/(\d+) obligations", m[4])
        t = "**missed**" if m[3] != "1" else ("case `%s`" % case[1] if case else "failed obligations")
        if m[3] == "1" and case and ob and ob[1] != ob[2]: t = "failed obligations, and " + t
        how[m[1]] = t
print("| change | property | what it needs to manifest | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    print("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), how.get(d, "?")))
