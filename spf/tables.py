"""Formula tables: the reviewed element formula of each function (spec/*.json) against the formula of the current source.

Verdict per function:
  * every output formula equal (after canonicalisation)                        -> discharged
  * different, and both sides fully resolved                                   -> violation
  * different, one side not fully resolved by the engine (merges it could not
    express): compared by the set of things it is computed from (operations,
    operands, parameters, constants); same set -> discharged as `ingredients`   -> else violation
  * the function could not be summarised within the time cap, or is gone       -> undecided (counted, noted; never reported as held)
"""
import json, os, re
from . import formulas, facts as F
from .algebra import is_len

SPEC = os.path.join(F.VERIF, "spec")
UNRES = re.compile(r"\bmay\(|\balt\{|\bprior<|level\?|pending|clarg|mut\(|accof|flatof|\bfold\(|\bpr\(")
TOK = re.compile(r"[A-Za-z_][A-Za-z_0-9.]*|\d+")
NOISE = {"may", "alt", "rec", "self", "prior", "upd", "init", "step", "ite", "x", "it", "vec", "pr", "i", "flat", "accof", "flatof", "rev", "seq", "as", "level", "mut", "0", "1", "Sum", "SCRATCH", "const",
         "tuple", "ref", "deref", "dc", "fold", "pending", "local", "x1", "x2", "x3", "usize", "isize", "len", "rng", "end", "undef", "UNDEF", "range", "map", "zip", "sel", "iteq", "chain", "after"}


def tokens(s):
    out = set()
    for t in TOK.findall(re.sub(r"#\d+|@\[[^\]]*\]", "", s)):
        t = re.sub(r"\.\d+\b", "", t).strip(".")
        for p in t.split("."):
            if re.fullmatch(r"[A-Z]|I\d+|s\d+|x\d*|[nm]\d+", p) or p in NOISE or not p or p == "bot":
                continue
            out.add(p)
    return out


def is_base(k, keys):
    """the value under k is entirely overwritten by the more detailed outputs"""
    if any(o != k and o.startswith(k + "[") and re.fullmatch(r"\[[A-Z]\d*\]", o[len(k):].split("]")[0] + "]") for o in keys):
        return True
    m = re.fullmatch(r"(.*)\[[A-Z]\d*\]", k)
    r = m.group(1) if m else k
    return any(o.startswith(r + ".a") for o in keys) and any(o.startswith(r + ".b") for o in keys)


def strip_names(out):
    """index variable names, canonically"""
    return out


BIG = 40000


def ingredients(out):
    return sorted(set().union(*[tokens(v) | tokens(k) for k, v in outs(out).items()]))


def shorten(out):
    """very long formulas are kept as the set of things they are computed from"""
    if sum(len(v) for v in outs(out).values()) > BIG:
        return dict({k: v for k, v in out.items() if k.startswith("#") and k != "#ranges"}, **{"#ingredients": " ".join(ingredients(out))})
    return out


def outs(res):
    return {k: v for k, v in res.items() if not k.startswith("#")}


def split_args(s):
    """the top-level comma-separated parts of the text inside one pair of parentheses; returns (parts, end)"""
    d, parts, last = 0, [], 0
    for i, ch in enumerate(s):
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            if d == 0:
                return parts + [s[last:i]], i
            d -= 1
        elif ch == "," and d == 0:
            parts.append(s[last:i])
            last = i + 1
    return parts + [s[last:]], len(s)


def spine(s):
    """the decisions of a formula: conditions and results met going down its branches, as far as they are resolved"""
    out, work = set(), [s.strip()]
    while work:
        x = work.pop()
        if x.startswith("ite("):
            parts, end = split_args(x[4:])
            if len(parts) == 3 and 4 + end == len(x) - 1:
                if not UNRES.search(parts[0]):
                    out.add("if " + parts[0].strip())
                work += [parts[1].strip(), parts[2].strip()]
                continue
        if not UNRES.search(x):
            out.add(x)
    return out


def compare(spec, cur):
    """(verdict, message); verdict in ok / ingredients / bad"""
    s, c = outs(spec), outs(cur)
    if "#ingredients" in spec:
        ts, tc = set(spec["#ingredients"].split()), set(ingredients(cur))
        if ts == tc:
            return "ingredients", ""
        return "bad", "computed from %s; required %s" % (sorted(tc - ts) and "additionally %s" % sorted(tc - ts) or "", sorted(ts - tc) and "also %s" % sorted(ts - tc) or "(same)")
    if s == c:
        return "ok", ""
    diff = [k for k in sorted(set(s) | set(c)) if s.get(k) != c.get(k)]
    hard = [k for k in diff if not (is_base(k, c if k in c else s))]
    if not hard:
        return "ok", ""
    lines = []
    for k in hard:
        lines.append("%s\n      required: %s\n      found:    %s" % (k, s.get(k, "(not written)")[:1500], c.get(k, "(not written)")[:1500]))
    unres = any(UNRES.search(d.get(k, "")) for k in hard for d in (s, c))
    if unres and not any(k in s and k in c and not UNRES.search(k) and spine(s[k]) != spine(c[k]) for k in hard):
        ts = set().union(*[tokens(s[k]) | tokens(k) for k in s]) if s else set()
        tc = set().union(*[tokens(c[k]) | tokens(k) for k in c]) if c else set()
        if ts == tc and bool(s) == bool(c):
            return "ingredients", "\n    ".join(lines)
        lines.append("computed from %s; required %s" % (sorted(tc - ts) and "additionally %s" % sorted(tc - ts) or "", sorted(ts - tc) and "also %s" % sorted(ts - tc) or "(same)"))
    return "bad", "\n    ".join(lines)


def conjuncts(s):
    return [x for x in (s or "").split(" && ") if x]


NATURAL = re.compile(r"0\.\.[A-Za-z_0-9.]+")


def ranges(s):
    out = set()
    for x in (s or "").split(" ; "):
        x = x.strip()
        m = re.fullmatch(r"take\((.*)\)", x)
        if m:
            x = "0..%s" % m.group(1)
        if x and x != "once" and not NATURAL.fullmatch(x) and not (x.startswith("0..") and is_len(x[3:])):
            out.add(x)
    return out


def load(name):
    return json.load(open(os.path.join(SPEC, name + ".json")))


def compute(ctx, entries, cap=150):
    prog = ctx.prog
    jobs = []
    gone = []
    for e in entries:
        f = find(prog, e)
        if f is None or (not e.get("pub", True) and e.get("sig") and [t.s for t in f["lt"][:f["argc"] + 1]] != e["sig"]):
            gone.append(e)
            continue
        jobs.append((e["id"], f, e["level"], e["args"]))
    return formulas.compute(prog, jobs, cap=cap), gone


def find(prog, e):
    l = prog.by_name.get(e["fn"], [])
    l = [f for f in l if f["kind"] != "closure"]
    if len(l) > 1:
        n = e.get("nth", 0)
        l = sorted(l, key=lambda f: (f.get("file", ""), f.get("line", 0)))
        return l[n] if n < len(l) else None
    return l[0] if l else None


def where(f):
    return "%s:%s" % (f.get("file", "?"), f.get("line", "?"))


def run_formulas(ctx, rid, entries, cap=150, results=None):
    """decide the output formulas of the given functions"""
    res, gone = results or compute(ctx, entries, cap)
    decided = 0
    for e in entries:
        if e in gone:
            ctx.notes.append("%s: `%s` no longer exists under this name and signature; its callers are summarised with its body" % (rid, e["fn"]))
            continue
        r = res[e["id"]]
        f = find(ctx.prog, e)
        if "error" in r:
            ctx.notes.append("%s: `%s` undecided: %s" % (rid, e["fn"], r["error"]))
            continue
        v, msg = compare(e["out"], r["out"])
        # ranges
        sr, cr = ranges(e["out"].get("#ranges")), ranges(r["out"].get("#ranges"))
        if v == "ok" and sr != cr and "#ingredients" not in e["out"]:
            v, msg = "bad", "loop ranges: required %s, found %s" % (sorted(sr), sorted(cr))
        decided += 1
        if v == "bad":
            ctx.bad(rid, e["fn"] + ("#%d" % e["nth"] if e.get("nth") else ""), "`%s` does not compute its required result\n    %s" % (e["fn"], msg), where(f))
        else:
            ctx.ok(rid, "%s%s: %s" % (e["fn"], " (by ingredients)" if v == "ingredients" else "", "; ".join("%s := %s" % kv for kv in list(outs(r["out"]).items())[:2])[:400]))
            if v == "ingredients":
                ctx.notes.append("%s: `%s` decided by ingredients only" % (rid, e["fn"]))
    n = len(entries)
    ctx.check(decided * 10 >= n * 6, rid, "coverage", "only %d of %d functions of this table could be analysed" % (decided, n))
    return res


def select(tables, want, skip=()):
    """entries of the named tables whose function name matches one of the regexps"""
    out = []
    for t in tables:
        for e in load(t):
            if any(re.search(w, e["fn"]) for w in want) and not any(re.search(w, e["fn"]) for w in skip):
                out.append(e)
    return out


# ------------------------------------------------------------------ conditions insisted on
def _eqclasses(cs):
    par = {}

    def find(x):
        par.setdefault(x, x)
        while par[x] != x:
            x = par[x]
        return x
    for c in cs:
        if c.count(" == ") == 1:
            a, b = c.split(" == ")
            par[find(a)] = find(b)
    return find


def T_balanced(s):
    d = 0
    for ch in s:
        d += (ch in "([{") - (ch in ")]}")
        if d < 0:
            return False
    return d == 0


def norm_conj(c):
    m = re.fullmatch(r"!\(exists\{(.*)\}\)", c)
    if m and T_balanced(m.group(1)):
        c = m.group(1)
        k = re.fullmatch(r"!\((.*)\)", c)
        c = k.group(1) if k and T_balanced(k.group(1)) else "!(%s)" % c
    m = re.fullmatch(r"0 (?:<|!=) (.*)", c)
    return "0 != " + m.group(1) if m else c


def implied(c, cur):
    """c follows from the conjuncts of the current function"""
    cs = {norm_conj(x) for x in cur}
    c = norm_conj(c)
    if c in cs:
        return True
    if c.count(" == ") == 1:
        f = _eqclasses(cs)
        a, b = c.split(" == ")
        if f(a) == f(b):
            return True
        # through a common known size: substitute equal terms
    m = re.fullmatch(r"(.*) <= (.*)", c)
    if m and "%s < %s" % m.groups() in cs:
        return True
    m = re.fullmatch(r"0 != (.*)", c)
    if m and "is_power_of_two(%s)" % m.group(1) in cs:
        return True
    return False


def run_requires(ctx, rid, entries, results=None):
    """every condition a function is required to insist on is still insisted on"""
    res, gone = results or compute(ctx, entries)
    n = 0
    for e in entries:
        want = conjuncts(e["out"].get("#requires"))
        if not want or e in gone:
            continue
        r = res[e["id"]]
        f = find(ctx.prog, e)
        if "error" in r:
            ctx.notes.append("%s: `%s` undecided: %s" % (rid, e["fn"], r["error"]))
            continue
        cur = conjuncts(r["out"].get("#requires"))
        for c in want:
            if re.search(r"&\(|upd\(|SCRATCH|&local|it<|it:", c):
                continue
            n += 1
            if implied(c, cur):
                ctx.ok(rid, "%s insists on %s" % (e["fn"], c[:200]))
            else:
                ctx.bad(rid, "%s:%s" % (e["fn"], c[:160]), "`%s` no longer stops when `%s` does not hold (it insists on: %s)" % (e["fn"], c, " && ".join(cur)[:800] or "nothing"), where(f))
    return n
