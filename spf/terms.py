"""Forward abstract interpretation of an (inlined) Body over a term domain (value numbering).

A place is (root, path): root is a local index or ("m", term) = the memory a term points to.
Terms are nested tuples; equal terms denote equal values on every execution reaching that point.
"""
from .mir import succs, callee_of, callee_name, callee_key, FN_TRAITS

ANY = ("any",)


def is_t(t, k):
    return isinstance(t, tuple) and len(t) > 0 and t[0] == k


TRANSPARENT_REF = {
    # &x -> &contents
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
    "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
    "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
}


def short(n):
    return n.rsplit("::", 1)[-1] if n else n


def base_name(n):
    """method name irrespective of impl: `<X as T>::m` -> T::m"""
    if n and n.startswith("<") and " as " in n:
        # find matching '>::'
        depth = 0
        for i, ch in enumerate(n):
            if ch == "<":
                depth += 1
            elif ch == ">" and not (i and n[i - 1] == "-"):
                depth -= 1
                if depth == 0:
                    inner = n[1:i]
                    meth = n[i + 3:]
                    d = 0
                    for j in range(len(inner) - 4):
                        if inner[j] == "<":
                            d += 1
                        elif inner[j] == ">" and inner[j - 1] != "-":
                            d -= 1
                        elif d == 0 and inner.startswith(" as ", j):
                            tr = inner[j + 4:]
                            k = tr.find("<")
                            if k >= 0:
                                tr = tr[:k]
                            return tr + "::" + meth
                    return n
    return n


class Interp:
    wide_fold = False

    def __init__(self, body, max_iter=40, hooks=None):
        self.b = body
        self.prog = body.prog
        self.max_iter = max_iter
        self.hooks = hooks
        self.phi_ops = {}
        self.instate = {}
        self.calls = {}     # bb -> dict(name,key,args,res,ref)
        self.conds = {}     # bb -> term
        self.intsw = set()  # switches on an integer
        self.writes = []    # (bb, idx, place, term, line)
        self.live_edges = set()
        self.closure_arg_terms = {}
        self.ret_terms = {}
        self._names = {}
        self._dirty = None
        self._run()

    # ------------------------------------------------------------ places
    def rd(self, st, root, path):
        # longest stored prefix
        for n in range(len(path), -1, -1):
            v = st.get((root, path[:n]))
            if v is not None:
                for e in path[n:]:
                    v = self.proj(st, v, e)
                # overlay deeper writes
                return self._overlay(st, root, path, v)
        v = self.initial(root)
        for e in path:
            v = self.proj(st, v, e)
        return self._overlay(st, root, path, v)

    def _overlay(self, st, root, path, v):
        n = len(path)
        idx = st.get(("#", root))
        if not idx:
            return v
        subs = [p for p in idx if len(p) > n and p[:n] == path]
        if not subs:
            return v
        for p in sorted(subs, key=lambda p: (len(p), repr(p))):
            val = st.get((root, p))
            if val is not None:
                v = self.upd(v, p[n:], val)
        return v

    def upd(self, base, path, val):
        if not path:
            return val
        if is_t(base, "agg"):
            e = path[0]
            names = base[2]
            if isinstance(e, str) and e in names:
                i = names.index(e)
                vals = list(base[3])
                vals[i] = self.upd(vals[i], path[1:], val)
                return ("agg", base[1], names, tuple(vals))
        if is_t(base, "undef") and len(path) == 1:
            return ("upd", base, path, val)
        return ("upd", base, path, val)

    def initial(self, root):
        if isinstance(root, int):
            if 1 <= root <= self.b.argc:
                return ("arg", root)
            return ("undef", root)
        t = root[1]
        return ("deref", t)

    def wr(self, st, root, path, val):
        idx = st.get(("#", root), frozenset())
        n = len(path)
        drop = [p for p in idx if len(p) >= n and p[:n] == path]
        # may-alias kill on index elements
        haveidx = [k for k, e in enumerate(path) if isinstance(e, tuple) and e[0] == "i"]
        new = set(idx)
        for p in drop:
            st.pop((root, p), None)
            new.discard(p)
        for k in haveidx:
            for p in list(new):
                if len(p) > k and p[:k] == path[:k] and isinstance(p[k], tuple) and p[k][0] == "i" and p[k] != path[k]:
                    if is_t(p[k][1], "int") and is_t(path[k][1], "int"):
                        continue
                    old = st.get((root, p))
                    if old is not None and not (is_t(old, "maymix") and old[1] == p):
                        st[(root, p)] = ("maymix", p, old, val)
        # if whole prefix stored as an aggregate, update it in place when possible
        for m in range(n - 1, -1, -1):
            pv = st.get((root, path[:m]))
            if pv is not None and is_t(pv, "agg"):
                e = path[m]
                if isinstance(e, str) and e in pv[2] and not any(q in new and len(q) > m and q[:m] == path[:m] for q in new if q != path[:m]):
                    st[(root, path[:m])] = self.upd(pv, path[m:], val)
                    st[("#", root)] = frozenset(new)
                    return
                break
        new.add(path)
        st[(root, path)] = val
        st[("#", root)] = frozenset(new)

    def kill(self, st, root):
        idx = st.pop(("#", root), None)
        if idx:
            for p in idx:
                st.pop((root, p), None)

    def proj(self, st, v, e):
        k = v[0] if isinstance(v, tuple) and v else None
        if k == "bot":
            return v
        if e == "*":
            if k == "ref":
                return self.rd(st, v[1], v[2])
            return self.rd(st, ("m", v), ())
        if isinstance(e, str):
            if k == "agg":
                if e in v[2]:
                    return v[3][v[2].index(e)]
            if k == "upd":
                if v[2][0] == e:
                    if len(v[2]) == 1:
                        return v[3]
                    return self.upd(self.proj(st, v[1], e), v[2][1:], v[3])
                if isinstance(v[2][0], str) and v[2][0] != e:
                    return self.proj(st, v[1], e)
            if k == "dc":
                r = self._payload(st, v, e)
                if r is not None:
                    return r
            return ("fld", v, e)
        if e[0] == "dc":
            if k == "agg" and isinstance(v[1], tuple) and v[1][0] == "adt":
                # another variant's payload does not exist
                return v if v[1][3] == e[1] else ("bot",)
            if k == "upd" and v[2][0] == e:
                if len(v[2]) == 1:
                    return v[3]
                return self.upd(self.proj(st, v[1], e), v[2][1:], v[3])
            return ("dc", v, e[1])
        if e[0] == "i":
            if k == "agg" and v[1] == "array" and is_t(e[1], "int") and e[1][1] < len(v[3]):
                return v[3][e[1][1]]
            if k == "agg" and v[1] == "repeat":
                return v[3][0]
            if k == "upd":
                if v[2][0] == e:
                    if len(v[2]) == 1:
                        return v[3]
                    return self.upd(self.proj(st, v[1], e), v[2][1:], v[3])
                if isinstance(v[2][0], tuple) and v[2][0][0] == "i" and is_t(v[2][0][1], "int") and is_t(e[1], "int"):
                    return self.proj(st, v[1], e)
            return ("idx", v, e[1])
        return ("pr", v, e)

    def _payload(self, st, v, e):
        """field e of a downcast: model of Option/Result returning std calls."""
        src, var = v[1], v[2]
        if is_t(src, "next") and var == "Some":
            return self.elem(st, src[1])
        if is_t(src, "okor") and var in ("Ok", "Continue"):
            return ("some", src[1])
        if is_t(src, "branch"):
            inner = src[1]
            if var == "Continue":
                return self.proj(st, self.proj(st, inner, ("dc", "Ok" if len(src) < 3 else "Some")), "0")
            if var == "Break":
                return ("residual", inner)
        if is_t(src, "agg"):
            if e in src[2]:
                return src[3][src[2].index(e)]
        return None


    def place(self, st, p):
        """-> (root, path)"""
        root, path = p[0], ()
        for e in p[1:]:
            if e == "*":
                v = self.rd(st, root, path)
                if is_t(v, "ref"):
                    root, path = v[1], v[2]
                else:
                    root, path = ("m", v), ()
            elif isinstance(e, list):
                if e[0] == "f":
                    path = path + (e[2] if len(e) > 2 else str(e[1]),)
                elif e[0] == "d":
                    path = path + (("dc", e[2]),)
                elif e[0] == "i":
                    path = path + (("i", self.rd(st, e[1], ())),)
                elif e[0] == "ci":
                    path = path + (("i", ("int", e[1]) if not e[2] else ("fromend", e[1])),)
                elif e[0] == "ss":
                    path = path + (("ss", e[1], e[2], e[3]),)
            else:
                path = path + (("?",),)
        return root, path

    def mkref(self, root, path):
        if not isinstance(root, int) and path == ():
            return root[1]
        return ("ref", root, path)

    def deref_place(self, t):
        if is_t(t, "ref"):
            return t[1], t[2]
        return ("m", t), ()

    # ------------------------------------------------------------ operands
    def const(self, c, tys, st):
        if "fn" in c:
            f = c["fn"]
            r = f.get("r")
            return ("fnp", r["key"] if r and r["k"] == "item" else f["key"])
        if "str" in c:
            return ("str", c["str"])
        if "pr" in c:
            return self.promoted(c)
        if "v" in c:
            v = c["v"]
            if v and c["t"] is not None and tys[c["t"]].s in ("f64", "f32"):
                import struct
                return ("kc", repr(struct.unpack("<d", struct.pack("<Q", v))[0] if tys[c["t"]].s == "f64" else struct.unpack("<f", struct.pack("<I", v))[0]))
            return ("int", v)
        if "st" in c:
            return ("static", c["st"])
        if "cn" in c:
            return ("kc", c["cn"])
        if "cp" in c:
            return ("cparam", c["cp"])
        if c.get("zst"):
            return ("zst", tys[c["t"]].s)
        return ("kc", tys[c["t"]].s)

    def promoted(self, c):
        fn = self.prog.fns.get(c.get("prk"))
        if not fn or c["pr"] >= len(fn.get("promoted", ())):
            return ("kc", "promoted")
        key = (c["prk"], c["pr"])
        cache = self.prog.__dict__.setdefault("_promo", {})
        if key not in cache:
            cache[key] = ("kc", "promoted")
            pf = dict(fn["promoted"][c["pr"]])
            pf.setdefault("file", fn.get("file"))
            pf.setdefault("line", fn.get("line"))
            pf["kind"] = "promoted"
            from .mir import Inliner
            pb = Inliner(self.prog, lambda *a: False).build(pf)
            it = Interp(pb)
            st = it.exit_state
            v = it.rd(st, 0, ()) if st is not None else ("kc", "promoted")
            if is_t(v, "ref") and st is not None:
                def close(r, d=0):
                    # the promoted body's own memory is not the caller's: references into it carry their values
                    x = it.rd(st, r[1], r[2])
                    return ("cref", close(x, d + 1) if is_t(x, "ref") and d < 6 else x)
                v = ("refval", close(v)[1])
            cache[key] = v
        v = cache[key]
        if is_t(v, "refval"):
            return ("ref", ("m", ("promo",) + key), ()) if False else ("cref", v[1])
        return v

    def opnd(self, st, o, tys):
        if o[0] in ("c", "m"):
            r, p = self.place(st, o[1])
            return self.rd(st, r, p)
        if o[0] == "k":
            return self.const(o[1], tys, st)
        return ("rtcheck",)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, r, tys, bb):
        k = r[0]
        if k == "use":
            return self.opnd(st, r[1], tys)
        if k in ("ref", "raw"):
            root, path = self.place(st, r[2])
            if isinstance(root, tuple) and is_t(root[1], "cref") and path == ():
                return root[1]
            return self.mkref(root, path)
        if k == "cast":
            v = self.opnd(st, r[2], tys)
            kd = r[1]
            if kd == "BoxDerefTransmute" and is_t(v, "ref"):
                return v
            if kd in ("unsize", "reify", "closurefn", "ptrcoerce", "PtrToPtr", "FnPtrToPtr", "Subtype") or kd.startswith("Ptr"):
                if kd in ("PtrToPtr", "FnPtrToPtr"):
                    return ("pcast", tys[r[3]].s, v) if False else v
                return v
            if is_t(v, "int") and kd == "IntToInt":
                return ("int", self._trunc(v[1], tys[r[3]].s, tys[r[4]].s))
            return ("cast", kd, tys[r[3]].s, v)
        if k == "bin":
            a, b2 = self.opnd(st, r[2], tys), self.opnd(st, r[3], tys)
            return self.binop(r[1], a, b2)
        if k == "un":
            a = self.opnd(st, r[2], tys)
            if r[1] == "PtrMetadata":
                return ("len", self.strip_ref(a))
            if r[1] == "Not" and is_t(a, "un") and a[1] == "Not":
                return a[2]
            if r[1] == "Not" and is_t(a, "int") and a[1] in (0, 1):
                return ("int", 1 - a[1]) if True else a
            return ("un", r[1], a)
        if k == "discr":
            root, path = self.place(st, r[1])
            v = self.rd(st, root, path)
            d = self.discr(v)
            if is_t(d, "discr") and len(r) > 2 and [x[0] for x in r[2]] != [0, 1]:
                # more than two variants (or odd discriminants): keep their names
                return ("discr", d[1], tuple((x[0], x[1]) for x in r[2]))
            return d
        if k == "agg":
            vals = tuple(self.opnd(st, o, tys) for o in r[2])
            kd = r[1]
            if kd[0] == "tuple":
                return ("agg", "tuple", tuple(str(i) for i in range(len(vals))), vals)
            if kd[0] == "array":
                return ("agg", "array", tuple(str(i) for i in range(len(vals))), vals)
            if kd[0] == "adt":
                names = tuple(kd[4]) if len(kd[4]) == len(vals) else tuple(str(i) for i in range(len(vals)))
                return ("agg", ("adt", kd[1], kd[2], kd[3]), names, vals)
            if kd[0] == "closure":
                return ("agg", ("closure", kd[1]), tuple(str(i) for i in range(len(vals))), vals)
            return ("agg", "rawptr", tuple(str(i) for i in range(len(vals))), vals)
        if k == "rep":
            return ("agg", "repeat", ("v",), (self.opnd(st, r[1], tys),))
        if k == "clarg":
            return self.clarg(st, r[1], r[2], r[3])
        if k == "tls":
            return ("static", r[1])
        return ("rv", k, bb)

    def _trunc(self, v, to, frm):
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "bool": 8, "char": 32}
        fb, tb = bits.get(frm, 64), bits.get(to, 64)
        if frm.startswith("i") and v >= 1 << (fb - 1):
            v -= 1 << fb
        return v & ((1 << tb) - 1)

    def strip_ref(self, t):
        return t

    def binop(self, op, a, b):
        if is_t(a, "int") and is_t(b, "int"):
            x, y = a[1], b[1]
            try:
                r = {"Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y), "Le": lambda: int(x <= y),
                     "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y), "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                     "BitXor": lambda: x ^ y}.get(op)
                if r:
                    return ("int", r())
                if op in ("Add", "Sub", "Mul") and (self.wide_fold or x < 2 ** 32 and y < 2 ** 32):
                    z = {"Add": x + y, "Sub": x - y, "Mul": x * y}[op]
                    if self.wide_fold:
                        return ("int", z & (2 ** 64 - 1))
                    if z >= 0:
                        return ("int", z)
                if op in ("Div", "Rem") and y > 0:
                    return ("int", x // y if op == "Div" else x % y)
                if op in ("Shl", "Shr") and y < 64 and x < 2 ** 32:
                    z = x << y if op == "Shl" else x >> y
                    if z < 2 ** 31:
                        return ("int", z)
            except Exception:
                pass
        # comparisons against the length of a known array etc. are left alone
        if op in ("Gt", "Ge"):
            return ("bin", {"Gt": "Lt", "Ge": "Le"}[op], b, a)
        if op in ("Add", "Mul", "Eq", "Ne", "BitAnd", "BitOr", "BitXor", "AddUnchecked", "MulUnchecked"):
            if repr(b) < repr(a):
                a, b = b, a
        if op == "Mul" and (a == ("int", 1)):
            return b
        if op == "Mul" and (b == ("int", 1)):
            return a
        if op == "Add" and a == ("int", 0):
            return b
        if op == "Add" and b == ("int", 0):
            return a
        return ("bin", op, a, b)

    def discr(self, v):
        if is_t(v, "agg") and isinstance(v[1], tuple) and v[1][0] == "adt":
            adt = self.prog.adts.get(v[1][1])
            if adt and v[1][2] < len(adt["v"]):
                return ("int", adt["v"][v[1][2]]["d"])
            if v[1][1] in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"):
                return ("int", v[1][2])
        if is_t(v, "branch"):
            i = v[1]
            d = self.discr(i)
            opt = len(v) > 2 or is_t(i, "agg") and i[1][1] == "core::option::Option"
            if is_t(d, "int"):
                # Result: Ok=0 -> Continue=0 ; Option: None=0 -> Break=1
                return ("int", 1 - d[1]) if opt else d
            if opt:
                return d[2] if is_t(d, "un") and d[1] == "Not" else ("un", "Not", d)
            return d
        if is_t(v, "maperr"):
            return self.discr(v[1])
        if is_t(v, "okor"):
            d = self.discr(v[1])
            return ("int", 1 - d[1]) if is_t(d, "int") else d[2] if is_t(d, "un") and d[1] == "Not" else ("un", "Not", d)
        return ("discr", v)

    # ------------------------------------------------------------ iterators
    def elem(self, st, it):
        """term for an arbitrary element of an iterator/collection term"""
        if is_t(it, "call"):
            n = short(it[1])
            a = it[3]
            if n == "zip" and len(a) >= 2:
                return ("agg", "tuple", ("0", "1"), (self.elem(st, a[0]), self.elem(st, a[1])))
            if n == "enumerate":
                return ("agg", "tuple", ("0", "1"), (("index", a[0]), self.elem(st, a[0])))
            if n in ("rev", "skip", "take", "step_by", "peekable", "fuse", "chain", "filter", "inspect", "skip_while", "take_while", "by_ref", "cycle", "into_par_iter"):
                return self.elem(st, a[0])
            if n in ("cloned", "copied"):
                e = self.elem(st, a[0])
                return self.proj(st, e, "*")
            if n in ("into_iter", "iter", "iter_mut") and len(a) == 1:
                x = a[0]
                if is_t(x, "ref"):
                    return ("ref", x[1], x[2] + (("i", ANY),))
                if is_t(x, "call") or is_t(x, "agg") or is_t(x, "phi"):
                    if n == "into_iter":
                        return self.elem(st, x)
                return ("ref", ("m", x), (("i", ANY),))
            if n == "map" and len(a) >= 2:
                rets = self.cl_ret.get(it[2])
                if rets is not None:
                    return rets
        return ("elem", it)

    def clarg(self, st, bb, j, q):
        c = self.calls_tmp.get(bb)
        if c is None:
            return ("clarg", bb, j, q)
        n = short(c["name"])
        args = c["args"]
        if n in ("map", "for_each", "filter", "any", "all", "position", "flat_map", "filter_map", "inspect", "find", "max_by_key", "min_by_key", "try_for_each", "take_while", "skip_while", "for_each_with") and q == 0 and j >= 1:
            isopt = c["name"].startswith("core::option") or c["name"].startswith("core::result")
            if isopt:
                return ("some", args[0])
            e = self.elem(st, args[0])
            if n in ("filter", "find", "inspect", "take_while", "skip_while", "max_by_key", "min_by_key"):
                return ("cref", e)
            return e
        if n in ("fold",) and j == 2:
            return ("foldacc", bb) if q == 0 else self.elem(st, args[0])
        if n in ("and_then", "map", "unwrap_or_else", "ok_or_else", "map_err", "is_some_and"):
            return ("some", args[0]) if n != "map_err" else ("errof", args[0])
        return ("clarg", bb, j, q)

    # ------------------------------------------------------------ calls
    def call(self, st, bb, t, tys):
        self.tys_now = tys
        name = callee_name(t)
        cref = callee_of(t)
        args = tuple(self.opnd(st, a, tys) for a in t[2])
        ext = t[8] if len(t) > 8 and isinstance(t[8], dict) else {}
        optys = ext.get("optys") or [None] * len(args)
        if name is None:
            fterm = self.opnd(st, t[1], tys)
            name = "<indirect>"
        else:
            fterm = None
        rec = {"bb": bb, "name": name, "key": ext.get("res") or (callee_key(t) if cref else None), "decl": cref["n"] if cref else None, "args": args, "optys": optys,
               "ref": cref, "fterm": fterm, "line": t[6], "macros": t[7]}
        bn = base_name(cref["n"]) if cref else name
        rec["bn"] = bn
        res = None
        if self.hooks is not None:
            res = self.hooks(self, st, rec)
        mutates = True
        sn = short(bn)
        if res is None:
            res, mutates = self.std_model(st, bb, rec, bn, sn, args, t, tys)
        rec["res"] = res
        if mutates:
            muts = [(i, a) for i, (a, ty) in enumerate(zip(args, optys)) if ty is not None and ty.is_mut_ref()]
            new = [self.mutval(st, rec, i) for i, a in muts]
            for (i, a), v in zip(muts, new):
                root, path = self.deref_place(a)
                self.wr(st, root, path, v)
        self.calls_tmp[bb] = rec
        return rec, res

    def mutval(self, st, rec, i):
        return ("mut", rec["bb"], i, rec["name"])

    def std_model(self, st, bb, rec, bn, sn, args, t, tys):
        if bn in TRANSPARENT_REF and args:
            ot = rec["optys"][0]
            inner = ot.a[0] if ot is not None and ot.k == "ref" else None
            nolocal = True
            root, path = self.deref_place(args[0])
            if is_t(args[0], "cref"):
                return args[0], False
            return ("ref", root, path + ("$d",)), False
        if bn in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut") and len(args) == 2:
            if is_t(args[0], "cref"):
                return ("cref", ("idx", args[0][1], args[1])), False
            root, path = self.deref_place(args[0])
            return ("ref", root, path + (("i", args[1]),)), False
        if bn in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned") and args:
            if is_t(args[0], "cref"):
                return args[0][1], False
            root, path = self.deref_place(args[0])
            return self.rd(st, root, path), False
        if bn == "core::iter::traits::iterator::Iterator::next" and args:
            root, path = self.deref_place(args[0])
            v = self.rd(st, root, path)
            return ("next", v), False
        if bn in ("core::iter::traits::collect::IntoIterator::into_iter",) and args:
            a = args[0]
            if is_t(a, "call") and short(a[1]) in ("iter", "iter_mut", "zip", "enumerate", "rev", "skip", "take", "map", "chunks", "chunks_mut", "chunks_exact", "chunks_exact_mut", "windows", "into_iter", "step_by", "cloned", "copied"):
                return a, False
            if is_t(a, "agg") and isinstance(a[1], tuple) and "ops::range" in a[1][1]:
                return a, False
            return ("call", bn, bb, args), False
        if bn in ("core::ops::try_trait::Try::branch",):
            ty = rec["optys"][0] if rec.get("optys") else None
            return (("branch", args[0], "O") if ty is not None and ty.p == "core::option::Option" else ("branch", args[0])), False
        if bn == "core::ops::try_trait::FromResidual::from_residual":
            ga = rec["ref"]["ga"] if rec["ref"] else []
            to = self.tys_now[ga[0]] if ga and isinstance(ga[0], int) and ga[0] < len(self.tys_now) else None
            if to is not None and to.p == "core::option::Option":
                return ("agg", ("adt", "core::option::Option", 0, "None"), (), ()), False
            ty = rec["optys"][0] if rec.get("optys") else None
            if to is not None and ty is not None and to.p == ty.p == "core::result::Result" and len(to.a) == len(ty.a) == 2 and to.a[1] == ty.a[1] and is_t(args[0], "residual"):
                # the error handed on as it is
                return ("agg", ("adt", "core::result::Result", 1, "Err"), ("0",), (self.proj(st, self.proj(st, args[0][1], ("dc", "Err")), "0"),)), False
            return ("agg", ("adt", "core::result::Result", 1, "Err"), ("0",), (("fromres", args[0]),)), False
        if bn in ("core::option::Option::unwrap", "core::option::Option::expect"):
            return self._unw(st, args[0], "Some"), False
        if bn in ("core::result::Result::unwrap", "core::result::Result::expect"):
            return self._unw(st, args[0], "Ok"), False
        if bn in ("core::option::Option::ok_or", "core::option::Option::ok_or_else"):
            return ("okor", args[0]), False
        if bn in ("core::result::Result::map_err",):
            return ("maperr", args[0]), False
        if bn in ("core::convert::Into::into", "core::convert::From::from") and args and rec["optys"][0] is not None:
            ga = rec["ref"]["ga"] if rec["ref"] else []
            if len(ga) == 2 and ga[0] == ga[1]:
                return args[0], False
        if bn in ("core::slice::iter", "core::slice::iter_mut"):
            pass
        if bn == "core::mem::drop":
            return ("unit",), False
        if sn in ("len", "is_empty") and len(args) == 1:
            return (("len", args[0]) if sn == "len" else ("call", bn, 0, args)), False
        return ("call", rec["name"], bb, args), True

    def _unw(self, st, v, var):
        if is_t(v, "agg") and v[3]:
            return v[3][0]
        return self.proj(st, ("dc", v, var), "0")

    # ------------------------------------------------------------ driver
    def _transfer(self, bb, st, record=False):
        blk = self.b.blocks[bb]
        fr = self.b.frames[blk[2]]
        tys = fr["tys"]
        for i, s in enumerate(blk[0]):
            if s[0] == "=":
                v = self.rvalue(st, s[2], tys, bb)
                root, path = self.place(st, s[1])
                if record and (not isinstance(root, int) or path):
                    self.writes.append((bb, i, (root, path), v, s[3]))
                self.wr(st, root, path, v)
            elif s[0] == "sd":
                root, path = self.place(st, s[1])
                self.wr(st, root, path, ("setdiscr", s[2], bb))
            elif s[0] == "dead":
                pass
        t = blk[1]
        k = t[0]
        out = []
        if k == "switch":
            c = self.opnd(st, t[1], tys)
            if record:
                self.conds[bb] = c
                ty = tys[t[4]] if len(t) > 4 and isinstance(t[4], int) else None
                dl = t[1][1] if t[1][0] in ("c", "m") else None
                if ty is not None and ty.s != "bool" and not is_t(c, "discr") and not any(s[0] == "=" and s[1] == dl and s[2][0] == "discr" for s in blk[0]):
                    self.intsw.add(bb)
            if is_t(c, "int"):
                for v, x in t[2]:
                    if v == c[1]:
                        return [x]
                return [t[3]]
            return sorted(set([x for _, x in t[2]] + [t[3]]))
        if k == "call":
            rec, res = self.call(st, bb, t, tys)
            if record:
                self.calls[bb] = rec
            if t[4] is None:
                return []
            root, path = self.place(st, t[3])
            self.wr(st, root, path, res)
            return [t[4]]
        if k == "assert":
            c = self.opnd(st, t[1], tys)
            if record:
                self.conds[bb] = c
                if t[3][0] == "bounds":
                    self.bounds[bb] = (self.opnd(st, t[3][1], tys), self.opnd(st, t[3][2], tys))
            return [t[4]]
        if k == "asm":
            if record:
                self.asm[bb] = [(o[0], self.opnd(st, o[1], tys) if o[0] in ("in", "inout") else None) for o in t[2]]
            for o in t[2]:
                if o[0] == "out" and o[1]:
                    root, path = self.place(st, o[1])
                    self.wr(st, root, path, ("asmout", bb))
            return list(t[3])
        if k == "drop":
            if record:
                root, path = self.place(st, t[1])
                self.drops[bb] = (root, path, self.rd(st, root, path), tys[t[4]], t[5])
            return [t[2]]
        if k == "ret" and record:
            self.ret_terms[bb] = self.rd(st, 0, ())
            self.exit_state = dict(st)
        return succs(t)

    def _join(self, bb, a, b):
        """join b into a (dict) ; returns (new, changed)"""
        keys = set(k for k in a if k[0] != "#") | set(k for k in b if k[0] != "#")
        new = None
        for k in keys:
            root, path = k
            va = a.get(k)
            vb = b.get(k)
            if va is not None and va == vb:
                continue
            if is_t(va, "phi") and va[1] == bb and va[2] == k:
                if vb is None:
                    vb = self._rd_default(b, root, path)
                if vb is not None and vb != va:
                    self.phi_ops.setdefault(va, set()).add(vb)
                continue
            if va is None:
                va = self._rd_default(a, root, path)
            if vb is None:
                vb = self._rd_default(b, root, path)
            if va is None and vb is None:
                continue
            if va is None or vb is None:
                v = va if va is not None else vb
            elif va == vb:
                v = va
            elif is_t(va, "undef"):
                v = vb
            elif is_t(vb, "undef"):
                v = va
            else:
                v = ("phi", bb, k)
                ops = self.phi_ops.setdefault(v, set())
                if va != v:
                    ops.add(va)
                if vb != v:
                    ops.add(vb)
            if a.get(k) != v:
                if new is None:
                    new = dict(a)
                new[k] = v
                idx = new.get(("#", root), frozenset())
                if path not in idx:
                    new[("#", root)] = idx | {path}
        if new is None:
            return a, False
        return new, True

    def _rd_default(self, st, root, path):
        if isinstance(root, int):
            idx = st.get(("#", root))
            if not idx and not (1 <= root <= self.b.argc):
                return None
        return self.rd(st, root, path)

    def _run(self):
        self.cl_ret = {}
        self.calls_tmp = {}
        self.bounds = {}
        self.asm = {}
        self.drops = {}
        self.exit_state = None
        order = self.b.rpo()
        pos = {b: i for i, b in enumerate(order)}
        import heapq
        self.instate = {0: {}}
        heap = [0]
        inheap = {0}
        visits = {}
        self.truncated = False
        while heap:
            i = heapq.heappop(heap)
            bb = order[i]
            inheap.discard(i)
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > self.max_iter:
                self.truncated = True
                continue
            st = dict(self.instate[bb])
            outs = self._transfer(bb, st)
            for ext, rets in self.b.closure_rets.items():
                pass
            for s in outs:
                if s not in self.instate:
                    self.instate[s] = dict(st)
                    ch = True
                else:
                    self.instate[s], ch = self._join(s, self.instate[s], st)
                if ch and pos[s] not in inheap:
                    heapq.heappush(heap, pos[s])
                    inheap.add(pos[s])
            # closure return values feed elem(map(..))
            crs = self.b.closure_rets.get(bb)
            if crs:
                pass
        # closure results
        for ext, rets in self.b.closure_rets.items():
            for ckey, retl, hub in rets:
                st = self.instate.get(hub)
                if st is not None:
                    v = st.get((retl, ()))
                    if v is not None:
                        if is_t(v, "phi"):
                            ops = [o for o in self.phi_ops.get(v, ()) if not is_t(o, "undef")]
                            if len(ops) == 1:
                                v = ops[0]
                        self.cl_ret[ext] = v
        # record pass
        for bb in order:
            if bb in self.instate:
                st = dict(self.instate[bb])
                outs = self._transfer(bb, st, record=True)
                for s in outs:
                    self.live_edges.add((bb, s))
        self.reached = set(self.instate)

    # ------------------------------------------------------------ queries
    def expand(self, t, limit=2000):
        """All non-phi terms a phi may stand for (transitively, top level)."""
        seen, out, st = set(), [], [t]
        while st and len(seen) < limit:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if is_t(x, "phi"):
                st.extend(self.phi_ops.get(x, ()))
            elif is_t(x, "maymix"):
                st.extend([x[2], x[3]])
            else:
                out.append(x)
        return out

    def leaves(self, t, limit=20000):
        """All subterms reachable (through phis)."""
        seen, st = set(), [t]
        while st and len(seen) < limit:
            x = st.pop()
            if not isinstance(x, tuple) or x in seen:
                continue
            seen.add(x)
            if is_t(x, "phi"):
                st.extend(self.phi_ops.get(x, ()))
            else:
                st.extend(y for y in x if isinstance(y, tuple))
        return seen


def pp(t, d=0):
    """Compact printer."""
    if not isinstance(t, tuple):
        return str(t)
    if d > 8:
        return ".."
    if not t:
        return "()"
    k = t[0]
    f = lambda x: pp(x, d + 1)
    if k == "arg":
        return "arg%d" % t[1]
    if k == "int":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "call":
        return "%s(%s)" % ("::".join(t[1].split("::")[-2:]), ", ".join(f(x) for x in t[3]))
    if k == "fld":
        return "%s.%s" % (f(t[1]), t[2])
    if k == "deref":
        return "*%s" % f(t[1])
    if k == "ref":
        r = ("_%d" % t[1]) if isinstance(t[1], int) else "[%s]" % f(t[1][1])
        return "&%s%s" % (r, "".join(("." + e) if isinstance(e, str) else ("[%s]" % f(e[1]) if e[0] == "i" else "@%s" % (e[1],)) for e in t[2]))
    if k == "agg":
        tag = t[1] if isinstance(t[1], str) else (t[1][1].split("::")[-1] + ("::" + t[1][3] if len(t[1]) > 3 else ""))
        return "%s{%s}" % (tag, ", ".join("%s:%s" % (n, f(v)) for n, v in zip(t[2], t[3])))
    if k == "bin":
        return "(%s %s %s)" % (f(t[2]), t[1], f(t[3]))
    if k == "un":
        return "%s(%s)" % (t[1], f(t[2]))
    if k == "cast":
        return "(%s as %s)" % (f(t[3]), t[2])
    if k == "phi":
        kk = t[2][0]
        return "phi%d<%s>" % (t[1], kk if isinstance(kk, int) else f(kk[1]))
    if k == "dc":
        return "%s as %s" % (f(t[1]), t[2])
    if k == "idx":
        return "%s[%s]" % (f(t[1]), f(t[2]))
    return "%s(%s)" % (k, ", ".join(f(x) for x in t[1:]))
