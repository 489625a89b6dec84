#!/usr/bin/env python3
"""show the formula changes between the committed spec and the working tree's spec"""
import json, subprocess, sys, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = int(sys.argv[2]) if len(sys.argv) > 2 else 400
for n in (sys.argv[1].split(",") if len(sys.argv) > 1 and sys.argv[1] != "-" else [f[:-5] for f in sorted(os.listdir("spec")) if f.endswith(".json")]):
    try:
        old = {e["id"]: e for e in json.loads(subprocess.check_output(["git", "show", "HEAD:spec/%s.json" % n]))}
    except subprocess.CalledProcessError:
        continue
    new = {e["id"]: e for e in json.load(open("spec/%s.json" % n))}
    for i in sorted(set(old) | set(new)):
        a, b = old.get(i, {}).get("out"), new.get(i, {}).get("out")
        if a != b:
            print("==", n, i)
            if a is None or b is None:
                print("   ", "new" if a is None else "gone")
                continue
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    print("   ", k[:200], "\n      -", str(a.get(k))[:W], "\n      +", str(b.get(k))[:W])
