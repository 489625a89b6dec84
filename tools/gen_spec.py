#!/usr/bin/env python3
"""gen_spec.py NAME LEVEL FN...: print/merge the current formulas of functions into spec/NAME.json (reviewed by hand before commit)."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from spf import facts, formulas, tables


def args_of(f):
    names = {i: "arg%d" % i for i in range(1, f["argc"] + 1)}
    for x in f.get("names") or ():
        if len(x[1]) == 1 and 1 <= x[1][0] <= f["argc"]:
            names[x[1][0]] = x[0]
    return [names[i] for i in range(1, f["argc"] + 1)]


def sig_of(f):
    return [t.s for t in f["lt"][:f["argc"] + 1]]


SKIP = ("::tests", "AnonConst", "promoted", "_serde", "::_::", " as serde", "core::fmt", "core::cmp", "core::hash", "__Field", "__Visitor", "StructuralPartialEq", "get_size")


def main():
    if sys.argv[1] == "--file":
        return byfile()
    name, level, pats = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    p = facts.load()
    path = os.path.join(tables.SPEC, name + ".json")
    spec = json.load(open(path)) if os.path.exists(path) else []
    ents = []
    for pat in pats:
        l = [n for n in p.by_name if n == pat or n.endswith("::" + pat)]
        if not l:
            print("??", pat)
        for n in l:
            fs = sorted([f for f in p.by_name[n] if f["kind"] != "closure"], key=lambda f: (f.get("file", ""), f.get("line", 0)))
            for i, f in enumerate(fs):
                ents.append(({"id": "%s@%d%s" % (n, level, "#%d" % i if i else ""), "fn": n, "level": level, "nth": i, "args": args_of(f), "pub": bool(f.get("pub")), "sig": sig_of(f)}, f))
    finish(p, ents, level, spec, path)


def byfile():
    """--file NAME LEVEL FILE-SUBSTRING [EXCLUDED-BASENAME,...]: every function of the matching source files"""
    name, level, pat = sys.argv[2], int(sys.argv[3]), sys.argv[4].split(",")
    excl = set(sys.argv[5].split(",")) if len(sys.argv) > 5 else set()
    only = set(x[1:] for x in excl if x[0] == "+")
    p = facts.load()
    path = os.path.join(tables.SPEC, name + ".json")
    ents = []
    for n in sorted(p.by_name):
        if any(x in n for x in SKIP) or n.rsplit("::", 1)[-1] in excl or only and n.rsplit("::", 1)[-1] not in only:
            continue
        fs = sorted([f for f in p.by_name[n] if f["kind"] != "closure"], key=lambda f: (f.get("file", ""), f.get("line", 0)))
        for i, f in enumerate(fs):
            if any(x in f.get("file", "") for x in pat) and not f.get("ctfe"):
                ents.append(({"id": "%s@%d%s" % (n, level, "#%d" % i if i else ""), "fn": n, "level": level, "nth": i, "args": args_of(f), "pub": bool(f.get("pub")), "sig": sig_of(f)}, f))
    finish(p, ents, level, [], path)


def finish(p, ents, level, spec, path):
    res = formulas.compute(p, [(e["id"], f, level, e["args"]) for e, f in ents], cap=200)
    for e, f in ents:
        r = res[e["id"]]
        if "error" in r:
            print("!!", e["id"], r["error"])
            continue
        e["out"] = tables.shorten(r["out"])
        spec = [x for x in spec if x["id"] != e["id"]] + [e]
    spec.sort(key=lambda x: x["id"])
    json.dump(spec, open(path, "w"), indent=1)
    print(len(spec), "entries")


main()
