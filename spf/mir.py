"""MIR-level inlining and CFG utilities over the dumped facts."""
from .facts import Ty

CONV = {"core::convert::Into::into": ("core::convert::From", "from"), "core::convert::TryInto::try_into": ("core::convert::TryFrom", "try_from")}
NONE, _O, _R = ("mk", 0, "None"), "core::option::Option::", "core::result::Result::"
CTORS = {"Some": ("core::option::Option", 1), "Ok": ("core::result::Result", 0), "Err": ("core::result::Result", 1)}


def _some(e):
    return ("mk", 1, "Some", e)


def _ok(e):
    return ("mk", 0, "Ok", e)


def _err(e):
    return ("mk", 1, "Err", e)


def _call(i, *ps):
    return ("call", i, ps)


# what each arm (None, Some / Ok, Err / false, true) of a combinator gives
COMB = {
    _O + "map": (NONE, _some(_call(1, "p"))), _O + "and_then": (NONE, _call(1, "p")), _O + "map_or": (("arg", 1), _call(2, "p")),
    _O + "map_or_else": (_call(1), _call(2, "p")), _O + "ok_or": (_err(("arg", 1)), _ok("p")), _O + "ok_or_else": (_err(_call(1)), _ok("p")),
    _O + "unwrap_or": (("arg", 1), "p"), _O + "unwrap_or_else": (_call(1), "p"), _O + "is_some_and": ("false", _call(1, "p")),
    _O + "is_none_or": ("true", _call(1, "p")), _O + "or": (("arg", 1), ("arg", 0)), _O + "or_else": (_call(1), ("arg", 0)), _O + "and": (NONE, ("arg", 1)),
    _R + "map": (_ok(_call(1, "p")), _err("p")), _R + "map_err": (_ok("p"), _err(_call(1, "p"))), _R + "and_then": (_call(1, "p"), _err("p")),
    _R + "ok": (_some("p"), NONE), _R + "err": (NONE, _some("p")), _R + "unwrap_or": ("p", ("arg", 1)), _R + "unwrap_or_else": ("p", _call(1, "p")),
    _R + "or_else": (_ok("p"), _call(1, "p")), _R + "map_or": (_call(2, "p"), ("arg", 1)), _R + "map_or_else": (_call(2, "p"), _call(1, "p")),
    _R + "is_ok_and": (_call(1, "p"), "false"), _R + "is_err_and": ("false", _call(1, "p")),
    "bool::then": (NONE, _some(_call(1))), "bool::then_some": (NONE, _some(("arg", 1))),
}
FN_TRAITS = ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")


def succs(t, unwind=False):
    k = t[0]
    r = []
    if k == "goto":
        r = [t[1]]
    elif k == "switch":
        r = [b for _, b in t[2]] + [t[3]]
    elif k == "drop":
        r = [t[2]]
        if unwind and isinstance(t[3], int):
            r.append(t[3])
    elif k == "call":
        if t[4] is not None:
            r = [t[4]]
        if unwind and isinstance(t[5], int):
            r.append(t[5])
    elif k == "assert":
        r = [t[4]]
        if unwind and isinstance(t[5], int):
            r.append(t[5])
    elif k == "asm":
        r = list(t[3])
    elif k == "nd":
        r = list(t[1])
    return r


class Body:
    """An (inlined) body. locals: list[Ty]; blocks: list of [stmts, term, frame]; frames: list of dict."""

    def __init__(self):
        self.locals = []
        self.blocks = []
        self.frames = []
        self.argc = 0
        self.key = None
        self.name = None
        self.opaque_calls = []

    def preds(self):
        p = [[] for _ in self.blocks]
        for i, b in enumerate(self.blocks):
            for s in succs(b[1]):
                p[s].append(i)
        return p

    def reachable(self, start=0):
        seen = {start}
        st = [start]
        while st:
            b = st.pop()
            for s in succs(self.blocks[b][1]):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def rpo(self):
        seen = set()
        order = []
        st = [(0, iter(succs(self.blocks[0][1])))]
        seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(self.blocks[s][1]))))
                    adv = True
                    break
            if not adv:
                order.append(b)
                st.pop()
        return order[::-1]

    def where(self, bb):
        fr = self.frames[self.blocks[bb][2]]
        t = self.blocks[bb][1]
        line = None
        if t[0] == "call":
            line = t[6]
        elif t[0] in ("drop",):
            line = t[5]
        elif t[0] == "assert":
            line = t[6]
        elif t[0] == "asm":
            line = t[4]
        return "%s:%s (in %s)" % (fr["file"], line if line else fr["line"], fr["n"])

    def callee(self, bb):
        t = self.blocks[bb][1]
        if t[0] != "call":
            return None
        return callee_of(t)


def callee_of(t):
    """FnRef dict of a call terminator (None for indirect)."""
    f = t[1]
    if f[0] == "k" and "fn" in f[1]:
        return f[1]["fn"]
    return None


def callee_name(t):
    c = callee_of(t)
    if c is None:
        return None
    r = c.get("r")
    if r and r["k"] in ("item", "shim"):
        return r["n"]
    return c["n"]


def callee_key(t):
    c = callee_of(t)
    if c is None:
        return None
    r = c.get("r")
    if r and r["k"] == "item":
        return r["key"]
    return c["key"]


def unify(pt, at, sub):
    """Bind type params of pattern type pt to actual type at."""
    if pt is None or at is None:
        return
    if pt.k == "param":
        sub.setdefault(pt.p, at)
        return
    if pt.k == at.k and len(pt.a) == len(at.a):
        for x, y in zip(pt.a, at.a):
            unify(x, y, sub)


def peel(t):
    while t is not None and t.k in ("ref", "ptr"):
        t = t.a[0]
    if t is not None and t.k == "adt" and t.p == "alloc::boxed::Box" and t.a:
        t = t.a[0]
    return t


def subst(t, sub, depth=0):
    if not sub or depth > 12:
        return t
    if t.k == "param":
        return sub.get(t.p, t)
    if not t.a:
        return t
    na = tuple(subst(x, sub, depth + 1) for x in t.a)
    if all(x is y for x, y in zip(na, t.a)):
        return t
    return Ty(t.k, t.s, t.p, na, t.m, t.key, t.n, t.c)


class Inliner:
    def __init__(self, prog, policy, max_depth=14, max_blocks=30000):
        self.prog = prog
        self.policy = policy
        self.max_depth = max_depth
        self.max_blocks = max_blocks

    # ---- resolution with substituted types
    def resolve(self, cref, opnd_tys, frame_sub, tys):
        """Return local fn dict for a callee reference or None."""
        prog = self.prog
        r = cref.get("r")
        if r and r["k"] == "item" and r["key"] in prog.fns:
            return prog.fns[r["key"]]
        if r and r["k"] == "shim" and cref["n"] in FN_TRAITS and r["key"] in prog.fns:
            return prog.fns[r["key"]]
        n = cref["n"]
        if n in FN_TRAITS and opnd_tys:
            t = opnd_tys[0]
            while t is not None and t.k in ("ref", "ptr"):
                t = t.a[0]
            if t is not None and t.k == "adt" and t.p == "alloc::boxed::Box" and t.a:
                t = t.a[0]
            if t is not None and t.k == "closure":
                return prog.fns.get(t.key)
            if t is not None and t.k == "fndef":
                return prog.fns.get(t.key)
            return None
        if cref["key"] in prog.fns and not cref.get("tr"):
            return prog.fns[cref["key"]]
        if n in CONV and len(cref["ga"]) == 2:
            return self.resolve_conv(CONV[n], subst(tys[cref["ga"][0]], frame_sub), subst(tys[cref["ga"][1]], frame_sub))
        if cref.get("tr"):
            # trait method on a (possibly substituted) self type
            if cref["ga"]:
                st = subst(tys[cref["ga"][0]], frame_sub)
                f = self.resolve_trait(cref, st)
                if f:
                    return f
            if cref["key"] in prog.fns and not (r and r["k"] == "item"):
                # provided method on an unknown implementor: only if nobody overrides it
                mname = cref["n"].rsplit("::", 1)[1]
                for i in prog.impl_index.get(cref["tr"], ()):
                    for k in i["items"]:
                        f = prog.fns.get(k)
                        if f and f.get("name") == mname:
                            return None
                return prog.fns[cref["key"]]
        return None

    def resolve_conv(self, target, src, dst):
        """the workspace's conversion from src to dst behind the blanket `into` / `try_into`"""
        trait, mname = target
        hits = []
        for i in self.prog.impl_index.get(trait, ()):
            it = i["selfty"]
            if it.k != dst.k or it.p != dst.p or it.k == "prim" and it.s != dst.s or it.k not in ("adt", "prim"):
                continue
            for k in i["items"]:
                f = self.prog.fns.get(k)
                if f and f.get("name") == mname and len(f["lt"]) > 1:
                    a = f["lt"][1]
                    exact = a.k == src.k and a.p == src.p and (a.k != "prim" or a.s == src.s)
                    hits.append((0 if exact else 1 if a.k == "param" or src.k == "param" else 2, f))
        best = [f for q, f in hits if q == 0] or [f for q, f in hits if q == 1]
        return best[0] if len(best) == 1 else None

    def resolve_trait(self, cref, st):
        mname = cref["n"].rsplit("::", 1)[1]
        cands = []
        for i in self.prog.impl_index.get(cref["tr"], ()):
            it = i["selfty"]
            if (it.k == st.k and (it.p == st.p) and (it.k != "prim" or it.s == st.s)) and it.k in ("adt", "prim", "closure"):
                cands.append(i)
        if len(cands) == 1:
            for k in cands[0]["items"]:
                f = self.prog.fns.get(k)
                if f and f.get("name") == mname:
                    return f
            return self.prog.fns.get(cref["key"])
        return None

    def build(self, fn):
        b = Body()
        b.key, b.name, b.argc = fn["key"], fn["n"], fn["argc"]
        b.prog = self.prog
        b.closure_rets = {}   # (ext call block) -> [(closure key, ret local)]
        self._splice(b, fn, {}, [], None, None, 0, None)
        return b

    def _splice(self, b, fn, sub, stack, ret_place, ret_bb, depth, parent_frame):
        """Append fn's body; returns entry block and local offset."""
        off = len(b.locals)
        boff = len(b.blocks)
        fr = {"n": fn["n"], "key": fn["key"], "file": fn.get("file", "?"), "line": fn.get("line"), "sub": sub, "off": off, "tys": fn["tys"],
              "fn": fn, "depth": depth, "parent": parent_frame, "id": len(b.frames)}
        fid = len(b.frames)
        b.frames.append(fr)
        for t in fn["lt"]:
            b.locals.append(subst(t, sub))
        n = len(fn["blocks"])
        for blk in fn["blocks"]:
            b.blocks.append([[], ["unreach"], fid])

        def mp(p):
            r = [p[0] + off]
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    r.append(["i", e[1] + off])
                else:
                    r.append(e)
            return r

        def mo(o):
            if o[0] in ("c", "m"):
                return [o[0], mp(o[1])]
            return o

        def mr(r):
            k = r[0]
            if k == "use":
                return ["use", mo(r[1])]
            if k == "rep":
                return ["rep", mo(r[1]), r[2]]
            if k in ("ref", "raw"):
                return [k, r[1], mp(r[2])]
            if k == "cast":
                return ["cast", r[1], mo(r[2]), r[3], r[4]]
            if k == "bin":
                return ["bin", r[1], mo(r[2]), mo(r[3])]
            if k == "un":
                return ["un", r[1], mo(r[2])]
            if k == "discr":
                return ["discr", mp(r[1])] + r[2:]
            if k == "agg":
                return ["agg", r[1], [mo(x) for x in r[2]]]
            return r

        for i, blk in enumerate(fn["blocks"]):
            if blk.get("c"):
                continue  # cleanup blocks are not part of the normal-flow body
            out = b.blocks[boff + i]
            for s in blk["s"]:
                if s[0] == "=":
                    out[0].append(["=", mp(s[1]), mr(s[2]), s[3]])
                elif s[0] == "sd":
                    out[0].append(["sd", mp(s[1]), s[2], s[3]])
                elif s[0] == "dead":
                    out[0].append(["dead", s[1] + off])
            t = blk["t"]
            k = t[0]
            if k == "goto":
                out[1] = ["goto", t[1] + boff]
            elif k == "switch":
                out[1] = ["switch", mo(t[1]), [[v, x + boff] for v, x in t[2]], t[3] + boff, t[4]]
            elif k == "ret":
                if ret_bb is not None:
                    out[0].append(["=", ret_place, ["use", ["m", [off]]], fn.get("line")])
                    out[1] = ["goto", ret_bb]
                else:
                    out[1] = ["ret"]
            elif k == "drop":
                out[1] = ["drop", mp(t[1]), t[2] + boff, None, t[4], t[5]]
            elif k == "assert":
                out[1] = ["assert", mo(t[1]), t[2], [t[3][0]] + [mo(x) if isinstance(x, list) else x for x in t[3][1:]], t[4] + boff, None, t[6]]
            elif k == "asm":
                out[1] = ["asm", t[1], [[o[0]] + [mo(x) if o[0] in ("in", "inout") and ii == 0 else (mp(x) if isinstance(x, list) else x) for ii, x in enumerate(o[1:])] for o in t[2]],
                          [x + boff for x in t[3]], t[4]]
            elif k == "call":
                args = [mo(a) for a in t[2]]
                dest = mp(t[3])
                tgt = None if t[4] is None else t[4] + boff
                out[1] = ["call", mo(t[1]), args, dest, tgt, None, t[6], t[7]]
            else:
                out[1] = list(t)
        # now expand calls
        for i in range(n):
            bb = boff + i
            t = b.blocks[bb][1]
            if t[0] == "call":
                self._expand(b, bb, sub, stack + [fn["key"]], depth, fid, fn["tys"])
        return boff, off

    def _opty(self, b, o, fr):
        if o[0] in ("c", "m"):
            p = o[1]
            t = b.locals[p[0]]
            for e in p[1:]:
                if e == "*":
                    t = t.a[0] if t.a else None
                elif isinstance(e, list) and e[0] == "f":
                    t = self._field_ty(t, e)
                else:
                    return None
                if t is None:
                    return None
            return t
        if o[0] == "k":
            return None if o[1]["t"] is None else fr["tys"][o[1]["t"]]
        return None

    def _field_ty(self, t, e):
        if t.k == "tuple" or t.k == "closure":
            return t.a[e[1]] if e[1] < len(t.a) else None
        if t.k == "adt":
            a = self.prog.adts.get(t.p)
            if a and len(a["v"]) == 1 and e[1] < len(a["v"][0]["f"]):
                return a["v"][0]["f"][e[1]][1]
        return None

    def _expand(self, b, bb, sub, stack, depth, fid, tys):
        t = b.blocks[bb][1]
        fr = b.frames[fid]
        c = callee_of(t)
        if c is None:
            return
        optys = [self._opty(b, a, fr) for a in t[2]]
        fn = self.resolve(c, optys, sub, tys)
        t.append({"res": fn["key"] if fn else None, "optys": optys})
        if fn is not None and depth < self.max_depth and fn["key"] not in stack and len(b.blocks) < self.max_blocks and t[4] is not None or \
           (fn is not None and t[4] is None and depth < self.max_depth and fn["key"] not in stack and False):
            if self.policy(fn, c, b, bb):
                self._inline_call(b, bb, fn, c, optys, stack, depth, fid, tys, sub)
                return
        if fn is None and t[4] is not None and depth < self.max_depth and self._desugar(b, bb, c, optys, sub, stack, depth, fid, tys):
            return
        # external (or atom) call receiving closures: model the closure as invoked 0..n times here
        if t[4] is None or depth >= self.max_depth:
            return
        clos = []
        for j, ot in enumerate(optys):
            x = ot
            while x is not None and x.k in ("ref", "ptr"):
                x = x.a[0]
            if x is not None and x.k in ("closure", "fndef") and x.key in self.prog.fns and x.key not in stack:
                if fn is None or not self.policy_closure_atom(fn):
                    clos.append((j, self.prog.fns[x.key], ot, x))
        if not clos:
            return
        tgt = t[4]
        # bb --call--> hub ; hub nondet -> closure_i -> hub ; hub -> tgt
        hub = len(b.blocks)
        b.blocks.append([[], ["nd", [tgt]], fid])
        t[4] = hub
        rets = []
        for j, cf, ot, ct in clos:
            pre = len(b.blocks)
            b.blocks.append([[], ["unreach"], fid])
            retl = len(b.locals)
            b.locals.append(cf["lt"][0])
            csub = {}
            if ct.k == "closure" and len(cf["lt"]) > 1:
                unify(peel(cf["lt"][1]), ct, csub)      # the captures' types bind the body's type parameters
            entry, off = self._splice(b, cf, csub, stack, [retl], hub, depth + 1, fid)
            st = b.blocks[pre][0]
            isclos = ct.k == "closure"
            if isclos:
                a0 = b.locals[off + 1]
                if a0.k == "ref" and (ot.k != "ref"):
                    st.append(["=", [off + 1], ["ref", bool(a0.m), self._operand_place(b, t[2][j], st)], t[6]])
                elif ot.k == "ref" and a0.k != "ref":
                    st.append(["=", [off + 1], ["use", ["c", self._operand_place(b, t[2][j], st) + ["*"]]], t[6]])
                else:
                    st.append(["=", [off + 1], ["use", t[2][j]], t[6]])
            base = 2 if isclos else 1
            for q in range(base, cf["argc"] + 1):
                st.append(["=", [off + q], ["clarg", bb, j, q - base], t[6]])
            b.blocks[pre][1] = ["goto", entry]
            b.blocks[hub][1][1].append(pre)
            rets.append((cf["key"], retl, hub))
        b.closure_rets[bb] = rets

    def _desugar(self, b, bb, c, optys, sub, stack, depth, fid, tys):
        """option, result and bool combinators: the match their definition is"""
        n = (c.get("r") or c)["n"] if (c.get("r") or c).get("n") in COMB else c["n"]
        arms = COMB.get(n)
        ot = optys[0] if optys else None
        if arms is None or ot is None or ot.k not in ("adt", "prim"):
            return False
        if n == _O + "unwrap_or" and ot.a and ot.a[0].k == "ref":
            return False      # a choice between references: kept as one value by the reader
        t = b.blocks[bb][1]
        args, dest, tgt, line = t[2], t[3], t[4], t[6]
        st = b.blocks[bb][0]
        P = {}

        def pl(i):
            """a local holding argument i"""
            if i not in P:
                o = args[i]
                if o[0] in ("c", "m") and len(o[1]) == 1:
                    P[i] = o[1][0]
                else:
                    P[i] = len(b.locals)
                    b.locals.append(optys[i] if optys[i] is not None else Ty("other", "tmp"))
                    st.append(["=", [P[i]], ["use", o], line])
            return P[i]

        s0 = pl(0)
        for i in range(1, len(args)):
            if optys[i] is None or optys[i].k != "fndef":
                pl(i)
        isb = ot.k == "prim"
        vs = [("false", None), ("true", None)] if isb else \
            [("None", None), ("Some", ot.a[0])] if ot.p == "core::option::Option" else [("Ok", ot.a[0]), ("Err", ot.a[1])]
        d = s0
        if not isb:
            d = len(b.locals)
            b.locals.append(Ty("prim", "isize"))
            st.append(["=", [d], ["discr", [s0], [[q, v] for q, (v, _) in enumerate(vs)]], line])
        calls = []

        def block():
            b.blocks.append([[], ["unreach"], fid])
            return len(b.blocks) - 1

        def ev(e, cur, vi):
            """emit e into block cur; -> (operand, type, block)"""
            if e == "p":
                return ["m", [s0, ["d", vi, vs[vi][0]], ["f", 0, "0", 0]]], vs[vi][1], cur
            if e in ("true", "false"):
                return ["k", {"t": None, "v": int(e == "true"), "ty": "bool"}], Ty("prim", "bool"), cur
            k = e[0]
            if k == "arg":
                return ["m", [pl(e[1])]], optys[e[1]], cur
            if k == "mk":
                l = len(b.locals)
                b.locals.append(Ty("other", "tmp"))
                if len(e) == 4:
                    o, ty, cur = ev(e[3], cur, vi)
                    ops = [o]
                else:
                    ops = []
                adt = "core::option::Option" if e[2] in ("None", "Some") else "core::result::Result"
                b.blocks[cur][0].append(["=", [l], ["agg", ["adt", adt, e[1], e[2], ["0"] if ops else []], ops], line])
                return ["m", [l]], b.locals[l], cur
            i, ps = e[1], []
            for x in e[2]:
                o, ty, cur = ev(x, cur, vi)
                ps.append((o, ty))
            l, nx = len(b.locals), None
            ft = optys[i]
            b.locals.append(Ty("other", "tmp"))
            if ft is not None and ft.k == "fndef":
                ctor = self._ctor(ft.p)
                if ctor is not None:
                    b.blocks[cur][0].append(["=", [l], ["agg", ctor, [o for o, _ in ps]], line])
                    return ["m", [l]], b.locals[l], cur
                nx = block()
                b.blocks[cur][1] = ["call", ["k", {"t": None, "fn": {"n": ft.p, "key": ft.key, "ga": []}}], [o for o, _ in ps], [l], nx, None, line, []]
            else:
                tl = len(b.locals)
                b.locals.append(Ty("tuple", "args", a=tuple(ty if ty is not None else Ty("other", "tmp") for _, ty in ps)))
                b.blocks[cur][0].append(["=", [tl], ["agg", ["tuple"], [o for o, _ in ps]], line])
                nx = block()
                b.blocks[cur][1] = ["call", ["k", {"t": None, "fn": {"n": "core::ops::function::FnOnce::call_once", "key": "core::ops::function::FnOnce::call_once",
                                                                    "ga": [], "tr": "core::ops::function::FnOnce"}}],
                                    [["m", [pl(i)]], ["m", [tl]]], [l], nx, None, line, []]
            if ft is not None and ft.k in ("closure", "fndef") and ft.key in self.prog.fns:
                b.locals[l] = self.prog.fns[ft.key]["lt"][0]
            calls.append(cur)
            return ["m", [l]], b.locals[l], nx

        entries = []
        for vi, (v, _) in enumerate(vs):
            cur = block()
            entries.append([vi, cur])
            o, ty, cur = ev(arms[vi], cur, vi)
            b.blocks[cur][0].append(["=", dest, ["use", o], line])
            b.blocks[cur][1] = ["goto", tgt]
        if isb:
            b.blocks[bb][1] = ["switch", ["c", [d]], [[0, entries[0][1]]], entries[1][1], None]
        else:
            un = block()
            b.blocks[bb][1] = ["switch", ["c", [d]], entries, un, None]
        for x in calls:
            self._expand(b, x, sub, stack, depth + 1, fid, tys)
        return True

    def _ctor(self, n):
        """the aggregate a constructor used as a function builds"""
        if n is None:
            return None
        for v, (adt, i) in CTORS.items():
            if n.endswith("::" + v) and n.startswith("core::"):
                return ["adt", adt, i, v, ["0"]]
        own, _, v = n.rpartition("::")
        a = self.prog.adts.get(own)
        if a:
            for i, x in enumerate(a["v"]):
                if x["n"] == v:
                    return ["adt", own, i, v, [f[0] for f in x["f"]]]
        a = self.prog.adts.get(n)
        if a and len(a["v"]) == 1:
            return ["adt", n, 0, v, [f[0] for f in a["v"][0]["f"]]]
        return None

    def policy_closure_atom(self, fn):
        return False

    def _operand_place(self, b, o, st):
        if o[0] in ("c", "m"):
            return list(o[1])
        l = len(b.locals)
        b.locals.append(Ty("other", "tmp"))
        st.append(["=", [l], ["use", o], None])
        return [l]

    def _inline_call(self, b, bb, fn, c, optys, stack, depth, fid, tys, sub):
        t = b.blocks[bb][1]
        args, dest, tgt = t[2], t[3], t[4]
        nsub = {}
        spread = fn["kind"] == "closure" and c["n"] in FN_TRAITS
        fty = fn["lt"]
        stmts = b.blocks[bb][0]
        if spread:
            # call(clos, (a,b,c)) -> closure body args _1 = clos, _2.. = tuple fields
            if len(fty) > 1 and optys and optys[0] is not None:
                unify(peel(fty[1]), peel(optys[0]), nsub)
        else:
            if c["n"] in FN_TRAITS:
                # fn item called through Fn traits: args tuple spread, no self
                pass
            else:
                for i, ot in enumerate(optys):
                    if i + 1 < len(fty) and ot is not None:
                        unify(fty[i + 1], ot, nsub)
        entry, off = self._splice(b, fn, nsub, stack, dest, tgt, depth + 1, fid)
        if spread:
            a0t = b.locals[off + 1]
            o0 = args[0]
            ot = optys[0]
            if a0t.k == "ref" and ot is not None and ot.k != "ref":
                pl = self._operand_place(b, o0, stmts)
                stmts.append(["=", [off + 1], ["ref", bool(a0t.m), pl], t[6]])
            elif a0t.k != "ref" and ot is not None and ot.k == "ref":
                pl = self._operand_place(b, o0, stmts)
                stmts.append(["=", [off + 1], ["use", ["c", pl + ["*"]]], t[6]])
            else:
                # possibly && closure
                x = ot
                pl = None
                if ot is not None and ot.k == "ref" and ot.a[0].k == "ref":
                    pl = self._operand_place(b, o0, stmts)
                    while x.k == "ref" and x.a[0].k == "ref":
                        pl = pl + ["*"]
                        x = x.a[0]
                    stmts.append(["=", [off + 1], ["use", ["c", pl]], t[6]])
                else:
                    stmts.append(["=", [off + 1], ["use", o0], t[6]])
            pl = self._operand_place(b, args[1], stmts) if len(args) > 1 else None
            for q in range(2, fn["argc"] + 1):
                stmts.append(["=", [off + q], ["use", ["c", pl + [["f", q - 2, str(q - 2)]]]], t[6]])
        elif c["n"] in FN_TRAITS:
            pl = self._operand_place(b, args[1], stmts) if len(args) > 1 else None
            for q in range(1, fn["argc"] + 1):
                stmts.append(["=", [off + q], ["use", ["c", pl + [["f", q - 1, str(q - 1)]]]], t[6]])
        else:
            for q in range(1, fn["argc"] + 1):
                if q - 1 < len(args):
                    stmts.append(["=", [off + q], ["use", args[q - 1]], t[6]])
        b.blocks[bb][1] = ["goto", entry]
        b.frames[b.blocks[entry][2]]["callsite"] = bb


# ---------------------------------------------------------------- dominators
def dominators(nsucc, npred, n, entry):
    """Iterative dominator tree (Cooper-Harvey-Kennedy); returns idom list (None = unreachable)."""
    order = []
    seen = [False] * n
    st = [(entry, 0)]
    seen[entry] = True
    while st:
        b, i = st[-1]
        if i < len(nsucc[b]):
            st[-1] = (b, i + 1)
            s = nsucc[b][i]
            if not seen[s]:
                seen[s] = True
                st.append((s, 0))
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = [None] * n
    for i, b in enumerate(order):
        num[b] = i
    idom = [None] * n
    idom[entry] = entry
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in npred[b]:
                if idom[p] is not None and num[p] is not None:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom[b] != new:
                idom[b] = new
                changed = True
    return idom


class Dom:
    """Dominators of a body with edges as nodes, so that edge dominance is available."""

    def __init__(self, body, live=None):
        n = len(body.blocks)
        self.n = n
        self.edge = {}
        ns = [[] for _ in range(n)]
        np_ = [[] for _ in range(n)]
        k = n
        for i, b in enumerate(body.blocks):
            if live is not None and i not in live:
                continue
            for s in set(succs(b[1])):
                if live is not None and ((i, s) not in live[i] if isinstance(live, dict) else False):
                    continue
                ns.append([s])
                np_.append([i])
                self.edge[(i, s)] = k
                ns[i].append(k)
                np_[s].append(k)
                k += 1
        self.ns, self.np = ns, np_
        self.idom = dominators(ns, np_, k, 0)

    def dominates(self, a, b):
        """block/edge-node a dominates block b"""
        if self.idom[b] is None:
            return True
        x = b
        while True:
            if x == a:
                return True
            nx = self.idom[x]
            if nx == x or nx is None:
                return False
            x = nx

    def edge_dominates(self, e, b):
        k = self.edge.get(e)
        return k is not None and self.dominates(k, b)

    def dom_edges(self, b):
        """All (block, succ) edges dominating block b."""
        inv = getattr(self, "_inv", None)
        if inv is None:
            inv = self._inv = {v: k for k, v in self.edge.items()}
        r = []
        x = b
        while x is not None:
            if x in inv:
                r.append(inv[x])
            nx = self.idom[x]
            if nx == x:
                break
            x = nx
        return r
