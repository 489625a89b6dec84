"""Vectorised siblings: the meaning of assembly blocks, and which processor features guard the code that needs them."""
import re
from fractions import Fraction
from .terms import is_t
from .algebra import summary, Render, canon_cond
from .tfhe import ATOMS, POLICY
from .mir import callee_of, succs

FEAT_OF = {"has_avx512f": "avx512f", "has_avx512dq": "avx512dq", "has_avx2": "avx2", "has_fma": "fma", "has_avx": "avx", "has_avx512bw": "avx512bw",
           "has_avx512vl": "avx512vl", "has_avx512_ifma": "avx512ifma", "has_sse41": "sse4.1", "has_sse42": "sse4.2", "has_bmi1": "bmi1", "has_bmi2": "bmi2"}
IMPLIES = {"avx2": {"avx", "sse4.2", "sse4.1"}, "avx512f": {"avx2", "fma", "avx"}, "avx512dq": {"avx512f"}, "fma": {"avx"}}


def close(fs):
    out = set(fs)
    work = list(fs)
    while work:
        for g in IMPLIES.get(work.pop(), ()):
            if g not in out:
                out.add(g)
                work.append(g)
    return out


# ------------------------------------------------------------------ assembly
class Unknown(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            r[m] = r.get(m, 0) + v * w
            if r[m] == 0:
                del r[m]
    return r


class Asm:
    """A straight-line 512-bit program: registers hold eight 64-bit lanes, each a polynomial over the memory words read."""

    def __init__(self, template):
        self.regs = {}
        self.mem = {}      # (base operand, index operand, word) -> polynomial
        self.written = set()
        self.aligned = set()
        self.feats = set()
        for line in template.split("\n"):
            line = line.split("//")[0].strip()
            if line:
                self.insn(line)

    def addr(self, s):
        m = re.fullmatch(r"(?:zmmword ptr )?\[\{(\d+)(?::[a-z])?\}(?:\s*\+\s*8\*\{(\d+)(?::[a-z])?\})?(?:\s*\+\s*(\d+|0x[0-9a-f]+))?\]", s.strip())
        if not m:
            raise Unknown("address %s" % s)
        d = int(m.group(3) or "0", 0)
        if d % 8:
            raise Unknown("displacement %d" % d)
        return int(m.group(1)), None if m.group(2) is None else int(m.group(2)), d // 8

    def load(self, s, bcast=False):
        b, i, w = self.addr(s)
        return [self.mem.get((b, i, w + (0 if bcast else l)), {((b, i, w + (0 if bcast else l)),): 1}) for l in range(8)]

    def reg(self, s):
        m = re.fullmatch(r"zmm(\d+)", s.strip())
        if not m:
            raise Unknown("operand %s" % s)
        return int(m.group(1))

    def get(self, s):
        if "[" in s:
            self.aligned.discard(None)
            return self.load(s)
        r = self.reg(s)
        if r not in self.regs:
            return [{(("init", r, l),): 1} for l in range(8)]
        return self.regs[r]

    def put(self, s, v):
        r = self.reg(s)
        self.regs[r] = v
        self.written.add(r)

    def insn(self, line):
        op, _, rest = line.partition(" ")
        a = [x.strip() for x in re.findall(r"(?:\[[^\]]*\]|[^,\[])+", rest)]
        self.feats.add("avx512f")
        if op in ("vmovapd", "vmovdqa64", "vmovupd", "vmovdqu64") and len(a) == 2:
            al = op in ("vmovapd", "vmovdqa64")
            if "[" in a[0]:
                b, i, w = self.addr(a[0])
                for l, v in enumerate(self.get(a[1])):
                    self.mem[(b, i, w + l)] = v
                if al:
                    self.aligned.add(b)
                if w % 8 and al:
                    raise Unknown("aligned store at word %d" % w)
            else:
                if "[" in a[1]:
                    b, i, w = self.addr(a[1])
                    if al:
                        self.aligned.add(b)
                        if w % 8:
                            raise Unknown("aligned load at word %d" % w)
                self.put(a[0], list(self.get(a[1])))
            return
        if op in ("vshufpd",) and len(a) == 4:
            x, y = self.get(a[1]), self.get(a[2])
            imm = int(a[3].lstrip("$"), 0)
            self.put(a[0], [(x if l % 2 == 0 else y)[(l & ~1) + ((imm >> l) & 1)] for l in range(8)])
            return
        if op in ("vunpcklpd", "vunpckhpd") and len(a) == 3:
            x, y = self.get(a[1]), self.get(a[2])
            h = 1 if op == "vunpckhpd" else 0
            self.put(a[0], [(x if l % 2 == 0 else y)[(l & ~1) + h] for l in range(8)])
            return
        if op in ("vpbroadcastq", "vbroadcastsd") and len(a) == 2 and "[" in a[1]:
            self.put(a[0], self.load(a[1], True))
            return
        m = re.fullmatch(r"vf(n?)m(add|sub)(132|213|231)pd", op)
        if m and len(a) == 3:
            v1, v2, v3 = self.get(a[0]), self.get(a[1]), self.get(a[2])
            x, y, z = {"132": (v1, v3, v2), "213": (v2, v1, v3), "231": (v2, v3, v1)}[m.group(3)]
            out = []
            for p, q, r in zip(x, y, z):
                pr = pmul(p, q)
                if m.group(1):
                    pr = padd({}, pr, -1)
                out.append(padd(pr, r, 1 if m.group(2) == "add" else -1))
            self.put(a[0], out)
            return
        bi = {"vaddpd": "+", "vsubpd": "-", "vmulpd": "*", "vpaddq": "+", "vpsubq": "-", "vpmullq": "*"}.get(op)
        if bi and len(a) == 3:
            if op == "vpmullq":
                self.feats.add("avx512dq")
            x, y = self.get(a[1]), self.get(a[2])
            self.put(a[0], [padd(p, q) if bi == "+" else padd(p, q, -1) if bi == "-" else pmul(p, q) for p, q in zip(x, y)])
            return
        if op in ("vpxorq", "vpxord", "vxorpd") and len(a) == 3 and a[1] == a[2]:
            if op == "vxorpd":
                self.feats.add("avx512dq")
            self.put(a[0], [{} for _ in range(8)])
            return
        raise Unknown("instruction %s" % op)


def asm_fns(prog):
    return [f for f in prog.fns.values() if any(b["t"][0] == "asm" for b in f["blocks"])]


SCALE = {"u64": 1, "i64": 1, "f64": 1}


def words(ty):
    s = ty.peel().s if hasattr(ty, "peel") else ty.s
    m = re.search(r"\[(.*)\]", ty.s)
    e = m.group(1) if m else s
    if "Complex<f64>" in e:
        return 2
    return SCALE.get(e)


def check_asm(ctx, prog, f, rule, notes):
    """one assembly function: returns needed features, or None when it could not be read"""
    out, al = summary(prog, f, dict((k, v) for k, v in ATOMS.items() if k != f["n"]), POLICY, want_alg=True)
    where = "%s:%s" % (f.get("file", "?"), f.get("line", "?"))
    feats = set()
    names = {x[1][0]: x[0] for x in f.get("names") or () if len(x[1]) == 1 and 1 <= x[1][0] <= f["argc"]}
    for bb in al.asm:
        t = al.b.blocks[bb][1]
        try:
            P = Asm(t[1])
        except Unknown as e:
            notes.append("%s: assembly not interpreted (%s)" % (f["n"], e))
            return None
        feats |= P.feats
        ops = al.asm[bb]
        declared = {int(m.group(1)) for o in t[2] if o[0] in ("out", "inout") for m in [re.search(r"[xyz]mm(\d+)", o[2])] if m}
        ctx.check(P.written <= declared, rule, f["n"] + ":clobbers", "`%s` writes vector registers %s that it does not declare as clobbered: the compiler may keep live values there" % (f["n"], sorted(P.written - declared)), where)
        terms = [o[1] for o in ops]
        idx = {k[1] for k in P.mem}
        if len(idx) != 1 or None in idx:
            notes.append("%s: stores not through one index" % f["n"])
            return None
        i = idx.pop()
        it = terms[i]
        lvs = al.lvs(bb)
        # index: W*n over the loop
        W, lv = None, None
        if is_t(it, "bin") and it[1] == "Mul":
            for x, y in ((it[2], it[3]), (it[3], it[2])):
                if is_t(x, "int") and is_t(y, "lv"):
                    W, lv = x[1], y
        elif is_t(it, "lv"):
            W, lv = 1, it
        if W is None or (lv,) != tuple(lvs):
            notes.append("%s: loop index not recognised" % f["n"])
            return None
        bases = {k[0] for k in P.mem}
        if len(bases) != 1 or not is_t(terms[list(bases)[0]], "arg"):
            notes.append("%s: store target not recognised" % f["n"])
            return None
        c = bases.pop()
        ws = sorted(k[2] for k in P.mem)
        ctx.check(ws == list(range(W)), rule, f["n"] + ":stride", "`%s` writes words %s of each step but advances by %d: elements are %s" % (f["n"], ws, W, "skipped" if len(ws) < W else "written twice or beyond the step"), where)
        # meaning
        w = words(f["lt"][terms[c][1]])

        def nm(k):
            b, ix, o = k
            if b == "init":
                raise Unknown("uninitialised register")
            tb = terms[b]
            if is_t(tb, "arg"):
                if ix != i:
                    raise Unknown("read at another index")
                return (tb[1], o)
            if is_t(tb, "ref"):
                v = al.rd(al.exit_state, tb[1], tb[2] + (("i", ("int", o)),)) if al.exit_state is not None else None
                return ("v", Render(al, names, {}).s(v))
            raise Unknown("base %s" % (tb,))
        try:
            got = {k[2]: {tuple(sorted(map(nm, m), key=str)): v for m, v in p.items()} for k, p in P.mem.items()}
        except Unknown as e:
            notes.append("%s: %s" % (f["n"], e))
            return None
        args = [j for j in range(1, f["argc"] + 1)]
        ca = terms[c][1]
        oth = [j for j in args if j != ca]

        def mono(*ks):
            return tuple(sorted(ks, key=str))
        want = {}
        if w == 2 and len(oth) == 2 and all(words(f["lt"][j]) == 2 for j in oth):
            a, b = oth
            for k in range(0, W, 2):
                want[k] = {mono((ca, k)): 1, mono((a, k), (b, k)): 1, mono((a, k + 1), (b, k + 1)): -1}
                want[k + 1] = {mono((ca, k + 1)): 1, mono((a, k), (b, k + 1)): 1, mono((a, k + 1), (b, k)): 1}
        elif w == 1 and len(oth) == 2 and f["lt"][oth[1]].s in SCALE:
            a, s = oth
            for k in range(W):
                want[k] = {mono((ca, k)): 1, mono((a, k), ("v", names.get(s, "arg%d" % s))): 1}
        else:
            notes.append("%s: no required meaning for this signature" % f["n"])
            return None
        bad = [k for k in sorted(set(want) | set(got)) if norm_cast(want.get(k)) != norm_cast(got.get(k))]
        ctx.check(not bad, rule, f["n"] + ":meaning", "`%s`: word %s of each step is computed as %s; required %s" % (f["n"], bad[:1], got.get(bad[0]) if bad else "", want.get(bad[0]) if bad else ""), where)
        # range of the loop
        h = lv[1]
        bound = None
        loop = al.loops.get(h, ())
        for x in loop:
            tt = al.b.blocks[x][1]
            if tt[0] == "switch" and x in al.conds and any(s not in loop for s in succs(tt)):
                cnd = al.conds[x]
                if is_t(cnd, "bin") and cnd[1] in ("Lt", "Ge", "Ne", "Gt", "Le"):
                    bound = cnd
        if bound is None:
            notes.append("%s: loop bound not recognised" % f["n"])
        else:
            R = Render(al, names, {})
            l, r = (bound[2], bound[3]) if bound[1] in ("Lt", "Ge", "Ne") else (bound[3], bound[2])
            ok = l == it and R.s(r) in {(("%d*" % w) if w > 1 else "") + "len(%s)" % names.get(j) for j in args}
            ctx.check(ok, rule, f["n"] + ":range", "`%s` loops while %s; it must cover all %d*len words of the slices" % (f["n"], R.s(bound), w), where)
        # what the block relies on
        need = []
        for b in sorted({terms[k][1] for k in P.aligned if is_t(terms[k], "arg")}):
            need.append("0 == align_offset(%s, 64)" % names.get(b))
        ls = sorted({names.get(terms[k][1]) for o in (set(x[0] for p in P.mem.values() for m in p for x in m) | {c}) if isinstance(o, int) for k in [o] if is_t(terms[k], "arg")})
        need += ["len(%s) == len(%s)" % (x, y) for x, y in zip(ls, ls[1:])]
        step = W // w
        req = out.get("#requires", "").split(" && ")
        missing = [n for n in need if not holds(n, req)]
        if not any(re.fullmatch(r"\(len\(\w+\) Rem (\d+)\) == 0", q) and int(re.search(r"Rem (\d+)", q).group(1)) % step == 0 for q in req):
            missing.append("len a multiple of %d" % step)
        if missing:
            callers = [g for g in prog.fns.values() if any(b["t"][0] == "call" and callee_of(b["t"]) and (callee_of(b["t"]).get("r") or callee_of(b["t"])).get("key") == f["key"] for b in g["blocks"]) and not g.get("test")]
            for g in callers:
                go, gal = summary(prog, g, ATOMS, POLICY, want_alg=True)
                gn = {x[1][0]: x[0] for x in g.get("names") or () if len(x[1]) == 1 and 1 <= x[1][0] <= g["argc"]}
                amap = {}
                for cb, rec in gal.calls.items():
                    if (rec.get("name") or "") == f["n"]:
                        for j, x in enumerate(rec["args"]):
                            if is_t(x, "arg"):
                                amap[names.get(j + 1)] = gn.get(x[1])
                greq = go.get("#requires", "").split(" && ") + guard_strs(gal, gn, f["n"])
                m2 = []
                for n in missing:
                    n2 = re.sub(r"\b(%s)\b(?!\()" % "|".join(x for x in names.values()), lambda mm: str(amap.get(mm.group(1), mm.group(1))), n)
                    if n.startswith("len a"):
                        okm = any(re.fullmatch(r"\(len\(\w+\) Rem (\d+)\) == 0", q) and int(re.search(r"Rem (\d+)", q).group(1)) % step == 0 for q in greq)
                    else:
                        okm = holds(n2, greq)
                    if not okm:
                        m2.append(n2)
                ctx.check(not m2, rule, g["n"] + ":preconditions", "`%s` reaches the assembly of `%s` without having established: %s" % (g["n"], f["n"], "; ".join(m2)), where)
            if not callers:
                ctx.ok(rule, f["n"] + ": no callers")
        else:
            ctx.ok(rule, f["n"] + ": preconditions asserted by itself")
    return feats


def guard_strs(al, names, callee):
    """conditions that hold at every call of `callee`: branches one side of which cannot reach it"""
    b = al.b
    out = None
    for cb, rec in al.calls.items():
        if (rec.get("name") or "") != callee:
            continue
        preds = b.preds()
        can = set()
        work = [cb]
        while work:
            x = work.pop()
            if x in can:
                continue
            can.add(x)
            work += [p for p in preds[x] if p in al.reached]
        R = Render(al, names, {})
        gs = set()
        for x in can:
            t = b.blocks[x][1]
            if t[0] != "switch" or x not in al.conds or not al.dom.dominates(x, cb):
                continue
            tr = [y for _, y in t[2]]
            c = al.conds[x]
            if [v for v, _ in t[2]] == [0] and (tr[0] in can) != (t[3] in can):
                c = c if t[3] in can else ("un", "Not", c)
                try:
                    gs.add(R.cond(canon_cond(c)))
                except Exception:
                    pass
        out = gs if out is None else out & gs
    return sorted(out or ())


def holds(n, req):
    if n in req:
        return True
    m = re.fullmatch(r"len\((\w+)\) == len\((\w+)\)", n)
    if m:
        # equality through chains
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        for q in req:
            k = re.fullmatch(r"len\((\w+)\) == len\((\w+)\)", q)
            if k:
                par[find(k.group(1))] = find(k.group(2))
        return find(m.group(1)) == find(m.group(2))
    m = re.fullmatch(r"0 == align_offset\((\w+), (\d+)\)", n)
    if m:
        for q in req:
            k = re.fullmatch(r"0 == align_offset\((\w+), (\d+)\)", q)
            if k and k.group(1) == m.group(1) and int(k.group(2)) % int(m.group(2)) == 0:
                return True
    return False


def norm_cast(p):
    if p is None:
        return None
    out = {}
    for k, v in p.items():
        k = tuple(sorted((("v", re.sub(r"^\((\w+) as \w+\)$", r"\1", x[1])) if x[0] == "v" else x for x in k), key=str))
        out[k] = out.get(k, 0) + v
    return out


# ------------------------------------------------------------------ feature guards
class Feats:
    """What a boolean function or a program point implies about processor features, by enumeration of the paths of small
    functions over an abstract environment: local -> ('c', bool) | ('f', features implied when true, features implied when
    false's negation unknown) | ('of', features implied by the boolean inside an Option) | ('clo', closure)."""

    def __init__(self, prog, needs):
        self.prog, self.needs = prog, needs
        self.memo = {}

    def own(self, f):
        return close(f.get("tf") or ())

    def const(self, k):
        return None

    def boolfn(self, f, depth=0):
        """features implied when f returns true; None if not understood"""
        k = f["key"]
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        if depth < 6:
            rets = []
            ok = self.paths(f, {}, None, rets, depth)
            if ok:
                sure, maybe = None, None
                for known, v in rets:
                    if v == ("c", False):
                        continue
                    fs = set(known) | (set(v[1]) if v is not None and v[0] == "f" else set())
                    unk = "?" in fs or v is None or v[0] not in ("c", "f")
                    fs.discard("?")
                    sure = fs if sure is None else sure & fs
                    if not unk:
                        maybe = fs if maybe is None else maybe & fs
                r = sure if sure is not None else set()
                if sure is not None and maybe != sure:
                    r = r | {"?"}
                self.memo[k] = r
        return self.memo[k]

    def val(self, env, o):
        if o[0] in ("c", "m"):
            p = o[1]
            base = p[0]
            v = env.get(base)
            if len(p) == 1 or all(x == "*" for x in p[1:]):
                return v
            return None
        if o[0] == "k":
            d = o[1]
            if "v" in d and d.get("sz") == 1 and d["v"] in (0, 1):
                return ("c", bool(d["v"]))
        return None

    def call(self, f, env, t, depth):
        cal = callee_of(t)
        if cal is None:
            return None
        n = (cal.get("r") or cal).get("n") or cal["n"]
        key = (cal.get("r") or cal).get("key")
        sn = n.rsplit("::", 1)[-1]
        args = [self.val(env, a) for a in t[2]]
        if sn in FEAT_OF and "raw_cpuid" in n:
            return ("f", close({FEAT_OF[sn]}))
        if sn in ("get_or_init", "map", "is_some_and", "then", "map_or", "and_then"):
            clo = next((a for a in args if a is not None and a[0] == "clo"), None)
            g = self.prog.fns.get(clo[1]) if clo else None
            if g is None:
                for a in t[2]:
                    if a[0] == "k" and "fn" in a[1]:
                        kk = (a[1]["fn"].get("r") or a[1]["fn"]).get("key")
                        nn = a[1]["fn"]["n"].rsplit("::", 1)[-1]
                        if nn in FEAT_OF:
                            fs = close({FEAT_OF[nn]})
                            return ("of", fs) if sn == "map" else ("f", fs)
                        g = self.prog.fns.get(kk)
            if g is not None:
                fs = self.boolfn(g, depth + 1)
                if fs is not None:
                    if sn == "map_or":
                        return ("f", fs) if args[1] == ("c", False) else None
                    return ("of", fs) if sn == "map" else ("f", fs)
            return None
        if sn in ("unwrap_or", "unwrap_or_default") and args and args[0] is not None and args[0][0] == "of":
            return ("f", args[0][1]) if sn == "unwrap_or_default" or args[1] == ("c", False) else ("f", set())
        if sn in ("deref", "clone", "copied", "as_ref") and args:
            return args[0]
        g = self.prog.fns.get(key)
        if g is not None and g["lt"][0].s == "bool":
            fs = self.boolfn(g, depth + 1)
            if fs is not None:
                return ("f", set(fs))
        return None

    def paths(self, f, env0, want, rets, depth, cap=4000):
        """enumerate acyclic paths; rets gets (features known, return value); want(bb, known, env) called at every call"""
        st = [(0, dict(env0), frozenset(self.own(f)), frozenset())]
        n = 0
        while st:
            bb, env, known, seen = st.pop()
            n += 1
            if n > cap:
                return False
            if bb in seen:
                continue
            b = f["blocks"][bb]
            seen = seen | {bb}
            for s in b["s"]:
                if s[0] != "=":
                    continue
                d, rv = s[1], s[2]
                if len(d) != 1:
                    continue
                v = None
                if rv[0] == "use":
                    v = self.val(env, rv[1])
                elif rv[0] == "ref":
                    p = rv[2]
                    v = env.get(p[0]) if len(p) == 1 or all(x == "*" for x in p[1:]) else None
                elif rv[0] == "un" and rv[1] == "Not":
                    x = self.val(env, rv[2])
                    if x is not None and x[0] == "c":
                        v = ("c", not x[1])
                    elif x is not None and x[0] == "f":
                        v = ("nf", x[1])
                    elif x is not None and x[0] == "nf":
                        v = ("f", x[1])
                elif rv[0] == "bin" and rv[1] in ("BitAnd", "BitOr"):
                    x, y = self.val(env, rv[2]), self.val(env, rv[3])
                    fx = x[1] if x and x[0] == "f" else set()
                    fy = y[1] if y and y[0] == "f" else set()
                    if rv[1] == "BitAnd":
                        v = ("f", set(fx) | set(fy))
                    else:
                        v = ("f", set(fx) & set(fy))
                elif rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    v = ("f", set())
                elif rv[0] == "agg" and rv[1][0] == "closure":
                    v = ("clo", rv[1][1])
                elif rv[0] == "discr":
                    v = ("f", set())
                env[d[0]] = v
            t = b["t"]
            if t[0] == "ret":
                rets.append((known, env.get(0)))
                continue
            if t[0] == "call":
                if want is not None:
                    want(bb, known, env)
                if t[4] is None:
                    continue
                if len(t[3]) == 1:
                    env[t[3][0]] = self.call(f, env, t, depth)
                st.append((t[4], env, known, seen))
                continue
            if t[0] == "switch":
                v = self.val(env, t[1])
                if v is not None and v[0] == "c":
                    tgt = next((x for k, x in t[2] if k == int(v[1])), t[3])
                    st.append((tgt, env, known, seen))
                    continue
                for k, x in t[2]:
                    kn = known | frozenset(v[1]) if v is not None and v[0] == "nf" and k == 0 else known
                    if v is None and k != 0:
                        kn = known | {"?"}
                    st.append((x, dict(env), kn, seen))
                kn = known
                if v is not None and v[0] == "f" and [k for k, _ in t[2]] == [0]:
                    kn = known | frozenset(v[1])
                elif v is None:
                    kn = known | {"?"}
                st.append((t[3], dict(env), kn, seen))
                continue
            for x in succs(t):
                st.append((x, dict(env), known, seen))
        return True

    def check(self, ctx, rule, f, notes):
        if f.get("test"):
            return 0
        sites = [i for i, b in enumerate(f["blocks"]) if b["t"][0] == "call" and callee_of(b["t"]) and (callee_of(b["t"]).get("r") or callee_of(b["t"])).get("key") in self.needs]
        if not sites:
            return 0
        bad = {}
        unk = set()

        def want(bb, known, env):
            if bb in sites:
                cal = callee_of(f["blocks"][bb]["t"])
                g = (cal.get("r") or cal).get("key")
                miss = self.needs[g] - set(known)
                if miss and "?" not in known:
                    bad.setdefault((bb, g), set()).update(miss)
                elif miss:
                    unk.add((bb, g))
        ok = self.paths(f, {}, want, [], 0)
        for bb in sites:
            cal = callee_of(f["blocks"][bb]["t"])
            g = (cal.get("r") or cal).get("key")
            gn = self.prog.fns[g]["n"]
            where = "%s:%s" % (f.get("file", "?"), f["blocks"][bb]["t"][6])
            if not ok or (bb, g) in unk:
                notes.append("guard of the call from %s to %s not understood" % (f["n"], gn))
                continue
            ctx.check((bb, g) not in bad, rule, "%s->%s" % (f["n"], gn), "`%s` reaches `%s`, which needs %s, on a path that has not established %s on this processor" % (
                f["n"], gn, sorted(self.needs[g]), sorted(bad.get((bb, g), ()))), where, what="%s -> %s (%s)" % (f["n"], gn, ", ".join(sorted(self.needs[g]))))
        return len(sites)


def run(ctx):
    prog = ctx.prog
    notes = ctx.notes
    needs = {}
    for f in prog.fns.values():
        if f.get("tf") and not f.get("test"):
            needs[f["key"]] = set(f["tf"])
    for f in asm_fns(prog):
        if f.get("test"):
            continue
        fs = check_asm(ctx, prog, f, "assembly", notes)
        if fs:
            needs[f["key"]] = needs.get(f["key"], set()) | fs - set()
    # a function that itself unconditionally reaches one passes the demand on
    F = Feats(prog, needs)
    n = 0
    for f in list(prog.fns.values()):
        n += F.check(ctx, "dispatch", f, notes)
    return n
