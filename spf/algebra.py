"""Element-level formula analysis.

A dataflow analysis over inlined MIR whose abstract values are symbolic element formulas.  A loop that walks a collection is
summarised, not unrolled: inside loop L the current element is index ("lv",L); on the back edge what the iteration stored at
index lv becomes a fact about every visited index ("v",L); on leaving the loop, about every index ("q",L).  Scalars and memory
that the iteration updates without using the index become accumulators, rendered as a sum over the loop.

Result: for every place written through an argument (and the return value) a canonical formula over the inputs.
"""
import hashlib, re

from .terms import Interp, is_t, short, base_name, ANY
from .mir import Inliner, Dom, succs, FN_TRAITS, subst

PRUNE = True

WRAPPERS = {"core::num::wrapping::Wrapping"}

# entity accessors: name -> (kind, element(s)); kind: "place" (ref to sub-region), "iter" (iterator of sub-entities), "pair"
ENT = "sunscreen_tfhe::entities::"
ACC = {
    "a": "?a", "a_mut": "?a", "b": "b", "b_mut": "b", "a_b": "pair", "a_b_mut": "pair",
    "rows": "it:rows", "rows_mut": "it:rows", "rows_par": "it:rows", "rows_par_mut": "it:rows",
    "glwe_ciphertexts": "it:glwes", "glwe_ciphertexts_mut": "it:glwes",
    "lwe_ciphertexts": "it:lwes", "lwe_ciphertexts_mut": "it:lwes",
    "ciphertexts": "it:cts", "ciphertexts_mut": "it:cts",
    "enc_zeros": "it:zeros", "enc_zeros_mut": "it:zeros",
    "keys": "it:keys", "keys_mut": "it:keys", "keys_par": "it:keys", "keys_par_mut": "it:keys",
    "glevs": "it:glevs", "glevs_mut": "it:glevs", "glevs_par": "it:glevs", "glevs_par_mut": "it:glevs",
    "glev_ciphertexts": "it:glevs", "glev_ciphertexts_mut": "it:glevs",
    "get_glev_at_index": "at:glev", "get_glev_at_index_mut": "at:glev",
    "keyswitch_keys": "it:ksks", "keyswitch_keys_mut": "it:ksks",
    "p0_p1": "pair:p0,p1",
    "s": "?s", "s_par": "?s", "s_mut": "?s", "s_par_mut": "?s",
}
X = ("x", 0)
LWE_KINDS = ("lwe_ciphertext",)

PURE_ARITH = {
    "add": "add", "sub": "sub", "mul": "mul", "neg": "neg",
    "wrapping_add": "add", "wrapping_sub": "sub", "wrapping_mul": "mul", "wrapping_neg": "neg",
    "add_assign": "add", "sub_assign": "sub", "mul_assign": "mul",
}
KNOWN_SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8}
KNOWN_ALIGN = {"__m512d": 64, "__m512i": 64, "__m512": 64, "__m256d": 32, "__m256i": 32, "__m256": 32, "__m128d": 16, "__m128i": 16, "__m128": 16}
BIT_TRAITS = {"core::ops::bit::Shr::shr": "Shr", "core::ops::bit::Shl::shl": "Shl", "core::ops::bit::BitAnd::bitand": "BitAnd",
              "core::ops::bit::BitOr::bitor": "BitOr", "core::ops::bit::BitXor::bitxor": "BitXor"}
ARITH_TRAITS = ("core::ops::arith::", "num_traits::ops::wrapping::", "num::traits::Wrapping", "core::num::")

COMMUTATIVE = {"glwe_add"}     # opaque operations whose first two operands may be exchanged
ADAPTORS = {"zip", "enumerate", "rev", "skip", "take", "step_by", "chain", "cloned", "copied", "map", "peekable", "by_ref",
            "into_iter", "iter", "iter_mut", "into_par_iter", "par_iter", "par_iter_mut", "with_min_len", "take_while", "skip_while", "filter",
            "chunks", "chunks_exact", "chunks_mut", "chunks_exact_mut", "par_chunks", "par_chunks_mut", "windows", "cycle", "inspect", "flat_map", "fuse", "zip_eq",
            "with_max_len", "flatten", "filter_map", "scan"}


def plain(n):
    """function name without the type arguments of the impl"""
    if not n or n.startswith("<") or "<" not in n:
        return n
    out, d = [], 0
    for ch in n:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


_sk = {}


def sk(t):
    """structural sort key of a term (linear in its number of distinct subterms)"""
    if not isinstance(t, tuple):
        return repr(t)
    k = id(t)
    hit = _sk.get(k)
    if hit is not None and hit[0] is t:
        return hit[1]
    h = hashlib.md5()
    for x in t:
        h.update((sk(x) if isinstance(x, tuple) else repr(x)).encode())
        h.update(b",")
    r = "T" + h.hexdigest()
    _sk[k] = (t, r)
    return r


class Alg(Interp):
    def __init__(self, body, atoms=None, max_iter=60, prog=None):
        self.atoms = {} if atoms is None else atoms
        self.prog = prog
        self.curbb = 0
        self.scat = {}
        self.policy = None
        self.clsum = {}
        self.cldepth = 0
        self.unknown = {}
        self._loops(body)
        self.counters = {}
        self._writes = None
        self.cl_ret = {}
        self.phi_ids = {}
        self.exts = {}
        self.nsites = {}
        self.range_used = set()
        self.chain_w, self.direct_w = {}, {}
        self.seeds = {}
        self._defs = None
        super().__init__(body, max_iter=max_iter)

    # ------------------------------------------------------------ loops
    def _loops(self, b):
        n = len(b.blocks)
        dom = Dom(b)
        self.dom = dom
        loops = {}
        preds = b.preds()
        reach = b.reachable()
        self.predsl = preds
        for t in range(n):
            if t not in reach:
                continue
            for h in set(succs(b.blocks[t][1])):
                if dom.dominates(h, t):
                    body = loops.setdefault(h, {h})
                    st = [t]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in reach)
        self.loops = loops
        self.inloops = {}
        for h, bs in loops.items():
            for x in bs:
                self.inloops.setdefault(x, []).append(h)
        for x in self.inloops:
            self.inloops[x].sort(key=lambda h: len(loops[h]))

    def inner(self, bb):
        l = self.inloops.get(bb)
        return l[0] if l else None

    def lvs(self, bb):
        """enclosing loop variables, outermost first"""
        return tuple(("lv", h) for h in reversed(self.inloops.get(bb, ())))

    # ------------------------------------------------------------ substitution
    def subst(self, t, m, memo=None):
        """m: dict term->term, applied to leaves ("lv",h)/("v",h)/("q",h)"""
        if memo is None:
            memo = {}
        return self._subst(t, m, memo)

    def _subst(self, t, m, memo):
        if not isinstance(t, tuple) or not t:
            return t
        r = m.get(t) if len(t) == 2 else None
        if r is not None:
            return r
        k = id(t)
        hit = memo.get(k)
        if hit is not None and hit[0] is t:
            return hit[1]
        if len(t) == 4 and t[0] == "phi":
            ch = False
            env = []
            for a_, v_ in t[3]:
                y = self._subst(v_, m, memo)
                if y is not v_:
                    ch = True
                env.append((a_, y))
            r = ("phi", t[1], t[2], tuple(env)) if ch else t
        else:
            ch = False
            out = []
            for x in t:
                y = self._subst(x, m, memo) if isinstance(x, tuple) else x
                if y is not x:
                    ch = True
                out.append(y)
            r = self.simp(tuple(out)) if ch else t
        memo[k] = (t, r)
        return r

    def mkphi(self, bb, key):
        hit = self.phi_ids.get((bb, key))
        if hit is None:
            vs = list(self.lvs(bb))
            self._free(key, vs)
            hit = self.phi_ids[(bb, key)] = ("phi", bb, key, tuple((v, v) for v in vs))
        return hit

    def _free(self, t, out):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] in ("lv", "v", "q"):
                if t not in out:
                    out.append(t)
                return
            if len(t) == 4 and t[0] == "phi":
                for _, v in t[3]:
                    self._free(v, out)
                return
            for x in t:
                if isinstance(x, tuple):
                    self._free(x, out)

    def ops(self, phi):
        return list(self.gops(phi).values())

    def gops(self, phi):
        """operands of a phi per predecessor block"""
        base = self.phi_ids.get((phi[1], phi[2]))
        g = self.phi_g.get(base)
        if not g:
            return {}
        m = {a: v for a, v in phi[3] if a != v}
        if not m:
            return g
        memo = {}
        return {p: self._subst(x, m, memo) for p, x in g.items()}

    def simp(self, t):
        k = t[0] if t else None
        if k == "flatof" and is_t(t[2], "flat"):
            v = t[1]
            for e in t[2][1]:
                v = self.proj({}, v, e)
            return v
        if k == "idx" and len(t) == 3 and isinstance(t[1], tuple) and not is_t(t[2], "flat") and is_t(t[1], "agg"):
            return self.proj({}, t[1], ("i", t[2]))
        if k == "idx" and is_t(t[2], "flat"):
            v = t[1]
            for e in t[2][1]:
                v = self.proj({}, v, e)
            return v
        if k == "bin" and len(t) == 4:
            return self.binop(t[1], t[2], t[3])
        if k == "iteq":
            if t[1] == t[2]:
                return t[3]
            if t[3] == t[4] or self._distinct(t[1], t[2]):
                return t[4]
        if k == "ref" and len(t) == 3:
            return ("ref", t[1], self._flatten(t[2]))
        if k == "rev" and is_t(t[1], "rev"):
            return t[1][1]
        return t

    def _flatten(self, path):
        for n, e in enumerate(path):
            if isinstance(e, tuple) and e and (e[0] == "i" and is_t(e[1], "flat") or e[0] == "rng"):
                break
        else:
            return path
        out = []
        for e in path:
            if isinstance(e, tuple) and e[0] == "i" and is_t(e[1], "flat"):
                out.extend(e[1][1])
            elif isinstance(e, tuple) and e[0] == "i" and out and isinstance(out[-1], tuple) and out[-1][0] == "rng" and not self._hasq(e[1]):
                out[-1] = ("i", self.binop("Add", out[-1][1], e[1]))
            elif isinstance(e, tuple) and e[0] == "rng" and out and isinstance(out[-1], tuple) and out[-1][0] == "rng":
                lo = self.binop("Add", out[-1][1], e[1])
                out[-1] = ("rng", lo, out[-1][2] if e[2] == ("end",) else self.binop("Add", out[-1][1], e[2]))
            else:
                out.append(e)
        return tuple(out)

    # ------------------------------------------------------------ places / memory
    def runs_once(self, h):
        """the loop body certainly runs: the loop visits a chain that ends in a single element"""
        return any(x[0] == "chain" and is_t(x[2], "it") and x[2][1] == "once" for x in self.exts.get(h, ()))

    def place(self, st, p):
        root, path = p[0], ()
        for e in p[1:]:
            if e == "*":
                v = self.rd(st, root, path)
                root, path = self.deref_place(v)
            elif isinstance(e, list):
                if e[0] == "f":
                    fl = e[3] if len(e) > 3 else 0
                    nm = e[2] if len(e) > 2 else str(e[1])
                    if fl == 1 or (fl == 2 and nm == "data"):
                        continue
                    path = path + (nm,)
                elif e[0] == "d":
                    path = path + (("dc", e[2]),)
                elif e[0] == "i":
                    path = path + (("i", self.rd(st, e[1], ())),)
                elif e[0] == "ci":
                    path = path + (("i", ("int", e[1]) if not e[2] else ("fromend", e[1])),)
                elif e[0] == "ss":
                    path = path + (("ss", e[1], e[2], e[3]),)
            else:
                path = path + (("?",),)
        return root, self._flatten(path)

    def deref_place(self, t):
        if is_t(t, "ref"):
            return t[1], t[2]
        return ("m", t), ()

    def initial(self, root):
        if not isinstance(root, int) and is_t(root[1], "cref"):
            return root[1][1]
        return super().initial(root)

    def erased(self, name):
        if name in WRAPPERS:
            return True
        a = self.prog.adts.get(name)
        if not a or a["kind"] != "struct":
            return False
        f = a["v"][0]["f"]
        return bool(a.get("transparent")) or (len(f) == 1 and f[0][0] == "data")

    def rvalue(self, st, r, tys, bb):
        if r[0] == "agg" and r[1][0] == "adt" and self.erased(r[1][1]) and len(r[2]) >= 1:
            return self.opnd(st, r[2][0], tys)
        if r[0] == "clarg":
            return self.clarg2(st, r[1], r[2], r[3])
        if r[0] in ("ref", "raw"):
            root, path = self.place(st, r[2])
            if not isinstance(root, int) and is_t(root[1], "cref"):
                if path == ():
                    return root[1]
                v = root[1][1]
                for e in path:
                    v = self.proj(st, v, e)
                return ("cref", v)
            return self.mkref(root, path)
        return super().rvalue(st, r, tys, bb)

    def binop(self, op, a, b):
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            op = op.replace("Unchecked", "")
            if is_t(a, "int") and is_t(b, "int"):
                return super().binop(op, a, b)
            if op == "Sub" and a == b:
                return ("int", 0)
            if op == "Sub" and b == ("int", 0):
                return a
            if op == "Mul" and ("int", 0) in (a, b):
                return ("int", 0)
            if op == "Add" and a == ("int", 0):
                return b
            if op == "Add" and b == ("int", 0):
                return a
            if op == "Mul" and a == ("int", 1):
                return b
            if op == "Mul" and b == ("int", 1):
                return a
            # checked ops (overflow tuples) do not occur in release MIR
            return ("bin", op, a, b)
        return super().binop(op, a, b)

    # pattern matching of a stored key against a path (prefix of it)
    def _match(self, key, path):
        """bindings if key (possibly quantified) covers path[:n]; returns (bind, n) or None"""
        bind = {}
        i = 0
        n = len(key)
        j = 0
        while i < n:
            if j >= len(path):
                return None
            k, p = key[i], path[j]
            if k == p:
                i += 1
                j += 1
                continue
            if isinstance(k, tuple) and k[0] == "i" and (is_t(k[1], "q") or (is_t(k[1], "fo") or is_t(k[1], "fi")) and is_t(k[1][1], "q")):
                if isinstance(p, tuple) and p[0] == "i":
                    if k[1] in bind and bind[k[1]] != p[1]:
                        return None
                    bind[k[1]] = p[1]
                    i += 1
                    j += 1
                    continue
                # flat element pattern against an accessor suffix
                if isinstance(p, str) and i == n - 1 and self._is_acc(path[j:]):
                    bind[k[1]] = ("flat", path[j:])
                    return bind, len(path)
                return None
            return None
        return bind, j

    def _is_acc(self, suf):
        """an accessor suffix reaching a single element"""
        if not suf or not isinstance(suf[0], str):
            return False
        if suf[0] not in ("a", "b", "rows", "glwes", "lwes", "cts", "zeros", "keys", "glevs", "ksks", "p0", "p1", "glev", "s"):
            return False
        return True

    def rd_phi(self, st, root, path):
        """read through a reference that is one of several at a join"""
        ph = root[1]
        g = self.gops(ph)
        if not g or not any(is_t(v, "ref") or is_t(v, "cref") for v in g.values()):
            return None
        vals = {}
        for p, o in g.items():
            r2, p2 = self.deref_place(o)
            if r2 == root:
                return None
            if is_t(o, "cref"):
                v = o[1]
                for e in path:
                    v = self.proj(st, v, e)
            else:
                v = self.rd(st, r2, self._flatten(p2 + path))
            vals[p] = v
        u = list(vals.values())
        if all(x == u[0] for x in u):
            return u[0]
        key = ("rd", ph, path)
        vs = []
        for x in u:
            self._free(x, vs)
        self._free(key, vs)
        self._free(ph, vs)
        t = ("phi", ph[1], key, tuple((v, v) for v in vs))
        self.phi_ids[(ph[1], key)] = t
        self.phi_g[t] = vals
        return t

    def rd(self, st, root, path):
        if not isinstance(root, int) and is_t(root[1], "chref"):
            vs = []
            for o in root[1][1:3]:
                if is_t(o, "cref"):
                    v = o[1]
                    for e in path:
                        v = self.proj(st, v, e)
                else:
                    r2, p2 = self.deref_place(o)
                    v = self.rd(st, r2, self._flatten(p2 + path))
                vs.append(v)
            return ("chain",) + tuple(vs) + (root[1][3],)
        if not isinstance(root, int) and is_t(root[1], "phi") and not st.get(("#", root)):
            v = self.rd_phi(st, root, path)
            if v is not None:
                return v
        v = st.get((root, path))
        if v is not None and not self._has_sub(st, root, path):
            return v
        idx = st.get(("#", root))
        best = None
        subs = []
        may = []
        if idx:
            for k in idx:
                val = st.get((root, k))
                if val is None:
                    continue
                m = self._match(k, path)
                if m is not None and (len(k) <= len(path)):
                    bind, used = m
                    rank = (self._depth(k), -len(bind))
                    if best is None or rank > best[0] or (rank == best[0] and sk(k) < sk(best[1])):
                        best = (rank, k, bind, used, val)
                elif len(k) > len(path):
                    if k[:len(path)] == path:
                        subs.append(k)
                    elif self._match_prefix(k, path):
                        subs.append(k)
                else:
                    if self._may(k, path):
                        may.append(k)
        if best is not None:
            rank, k, bind, used, val = best
            v = self.subst(val, bind) if bind else val
            for e in path[used:]:
                v = self.proj(st, v, e)
        else:
            # flat read over a split region
            if path and isinstance(path[-1], tuple) and path[-1][0] == "i" and idx and any(len(k) > len(path) - 1 and k[:len(path) - 1] == path[:-1] and isinstance(k[len(path) - 1], str) and self._is_acc(k[len(path) - 1:]) for k in idx):
                reg = self.rd(st, root, path[:-1])
                return self.simp(("flatof", reg, path[-1][1]))
            v = self.initial(root)
            for e in path:
                v = self.proj(st, v, e)
        if idx and path and isinstance(path[-1], tuple) and path[-1][0] == "i":
            n = len(path) - 1
            for k in sorted(idx, key=sk):
                if len(k) == n + 2 and k[:n] == path[:n] and isinstance(k[n], tuple) and k[n][0] == "rng" and k[n + 1][0] == "i" and is_t(k[n + 1][1], "q") and st.get((root, k)) is not None:
                    _, lo, hi = k[n]
                    e = path[-1][1]
                    w = self.subst(st[(root, k)], {k[n + 1][1]: self.binop("Sub", e, lo)})
                    cs = []
                    if lo != ("int", 0):
                        cs.append(("bin", "Le", lo, e))
                    if hi != ("end",):
                        cs.append(("bin", "Lt", e, hi))
                    for c in cs:
                        w = ("sel", c, w, v)
                    v = w
        for k in sorted(may, key=sk):
            if best is not None and len(best[1]) > len(k):
                continue
            v2 = st[(root, k)]
            if v2 != v:
                df = [(a, b) for a, b in zip(path, k) if a != b]
                rest = path[len(k):]
                for e in rest:
                    v2 = self.proj(st, v2, e)
                bd = {}
                for a, b in list(df):
                    if is_t(b[1], "q") and b[1] not in bd and not any(self._mentions(y[1], b[1]) for _, y in df if y is not b):
                        # written at every index: the write also covers this one
                        bd[b[1]] = a[1]
                        df.remove((a, b))
                if bd:
                    v2 = self.subst(v2, bd)
                if len(df) == 1 and not any(self._hasq(b[1]) for a, b in df):
                    v = self.simp(("iteq", df[0][0][1], df[0][1][1], v2, v))
                else:
                    v = ("may", v, v2)
        for k in sorted(subs, key=lambda p: (len(p), repr(p))):
            val = st[(root, k)]
            rest = k[len(path):]
            v = self.upd(v, rest, val)
        return v

    def _depth(self, k):
        return len(k)

    def _match_prefix(self, k, path):
        """key deeper than path, path being an instance of its quantified prefix"""
        for a, b in zip(k, path):
            if a == b:
                continue
            if isinstance(a, tuple) and a[0] == "i" and is_t(a[1], "q") and isinstance(b, tuple) and b[0] == "i":
                return False if True else None
            return False
        return True

    def _may(self, k, path):
        """key k (len<=path) may alias path with unknown indices"""
        diff = False
        for a, b in zip(k, path):
            if a == b:
                continue
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "i" and b[0] == "i":
                x, y = a[1], b[1]
                if self._distinct(x, y):
                    return False
                diff = True
                continue
            return False
        return diff

    def _free_any(self, t):
        vs = []
        self._free(t, vs)
        return bool(vs)

    def _hasq(self, t):
        vs = []
        self._free(t, vs)
        return any(v[0] in ("q", "v") for v in vs)

    def _distinct(self, x, y):
        if is_t(x, "int") and is_t(y, "int"):
            return x != y
        s = {x[0] if isinstance(x, tuple) else None, y[0] if isinstance(y, tuple) else None}
        if s == {"lv", "v"} and x[1] == y[1]:
            return True
        if is_t(x, "flat") or is_t(y, "flat"):
            return x != y
        d = self.lin(("bin", "Sub", x, y))
        if d is not None and list(d.keys()) == [()] and d[()] != 0:
            return True
        if d is not None and len(d) == 2 and all(len(k) == 1 for k in d) and sum(d.values()) == 0:
            a, b = (k[0] for k in d)
            if isinstance(a, tuple) and isinstance(b, tuple) and {a[0], b[0]} == {"lv", "v"} and a[1] == b[1]:
                return True
        return False

    def _has_sub(self, st, root, path):
        idx = st.get(("#", root))
        n = len(path)
        return bool(idx) and any(len(k) > n and k[:n] == path for k in idx)

    def side(self, v, n, ix):
        """component n of every value in v chained over the loop of index ix (both sides of a chain are visited by the same loop)"""
        if not isinstance(v, tuple):
            return v
        if v and v[0] in ("chain", "chref"):
            if v[3] == ix or set(_qs(self, v[3])) & set(_qs(self, ix)):
                return self.side(v[n + 1], n, ix)
        return tuple(self.side(x, n, ix) if isinstance(x, tuple) else x for x in v)

    def _transfer(self, bb, st, record=False):
        self.curbb = bb
        return super()._transfer(bb, st, record)

    def _scatter(self, ix):
        """an index several iterations may share: a plain sum of loop variables, or a masked/reduced one"""
        if not is_t(ix, "bin") or not self._haslv(ix):
            return False
        if ix[1] in ("BitAnd", "Rem"):
            return True
        if ix[1] == "Add":
            n = 0
            w = [ix]
            while w:
                x = w.pop()
                if is_t(x, "bin") and x[1] == "Add":
                    w += [x[2], x[3]]
                elif is_t(x, "lv"):
                    n += 1
            return n >= 2
        return False

    def _addends(self, t, sg=1):
        if is_t(t, "add") or is_t(t, "sub"):
            return self._addends(t[1], sg) + self._addends(t[2], sg if t[0] == "add" else -sg)
        if is_t(t, "neg"):
            return self._addends(t[1], -sg)
        return [(sg, t)]

    def _nlv(self, t):
        """number of distinct loop variables in a linear index"""
        out = set()
        w = [t]
        while w:
            x = w.pop()
            if is_t(x, "bin") and x[1] in ("Add", "Sub"):
                w += [x[2], x[3]]
            elif is_t(x, "lv"):
                out.add(x)
        return len(out)

    def _haslv(self, t):
        return isinstance(t, tuple) and (is_t(t, "lv") or any(self._haslv(x) for x in t))

    def wr(self, st, root, path, val, via=False):
        if path and isinstance(path[-1], tuple) and path[-1][0] == "i" and not isinstance(root, int) and self._scatter(path[-1][1]):
            # accumulation at a computed index: an event, the region keeps its symbolic prior contents
            self.scat[(self.curbb, path)] = (root, path, val)
            return
        if path and isinstance(path[-1], tuple) and path[-1][0] == "i" and isinstance(root, int) and is_t(path[-1][1], "bin") and self._nlv(path[-1][1]) >= 2:
            # accumulation at an index several iterations share: what each iteration adds to the element
            cur = self.rd(st, root, path)
            rest = self._addends(val)
            hit = [x for x in rest if x[1] == cur and x[0] > 0]
            if hit:
                rest.remove(hit[0])
                v = None
                for sg, x in rest:
                    v = (x if sg > 0 else ("neg", x)) if v is None else ("add" if sg > 0 else "sub", v, x)
                val = ("accum", v if v is not None else ("int", 0))
        if not isinstance(root, int) and is_t(root[1], "chref"):
            for n, o in enumerate(root[1][1:3]):
                if not is_t(o, "cref"):
                    r2, p2 = self.deref_place(o)
                    p3 = self._flatten(p2 + path)
                    if n == 1:
                        self.chain_w.setdefault((r2, self._anyix(p3)), set()).update(_qs(self, root[1][3]))
                    self.wr(st, r2, p3, self.side(val, n, root[1][3]), via=True)
            return
        if not via and self.curbb in self.inloops:
            self.direct_w.setdefault((root, self._anyix(path)), set()).add(self.curbb)
        idx = st.get(("#", root), frozenset())
        new = set(idx)
        n = len(path)
        for k in idx:
            if len(k) >= n and self._subsumes(path, k):
                st.pop((root, k), None)
                new.discard(k)
            elif len(k) >= n and self._may(path, k):
                pass
        if path and isinstance(path[-1], tuple) and path[-1] and path[-1][0] == "i" and is_t(path[-1][1], "q"):
            base = path[:-1]
            for k in list(new):
                if len(k) > len(base) and k[:len(base)] == base and (isinstance(k[len(base)], str) and self._is_acc(k[len(base):]) or is_t(k[len(base)], "rng")):
                    st.pop((root, k), None)
                    new.discard(k)
        if n >= 2 and is_t(path[-2], "rng") and isinstance(path[-1], tuple) and path[-1][0] == "i" and is_t(path[-1][1], "q"):
            # a second, overlapping part: what the first one left becomes the contents of the whole
            base = path[:-2]
            older = [k for k in new if len(k) == n and not self._free_any(path[-2]) and not self._free_any(k[-2]) and k[:-2] == base and is_t(k[-2], "rng") and k[-2] != path[-2] and not (k[-2][2] == path[-2][1] or path[-2][2] == k[-2][1])]
            if older:
                g = ("q", ("mg", sk(older[0])))
                self.exts.setdefault(g[1], set())
                st[("#", root)] = frozenset(new)
                v = self.rd(st, root, base + (("i", g),))
                for k in older:
                    st.pop((root, k), None)
                    new.discard(k)
                new.add(base + (("i", g),))
                st[(root, base + (("i", g),))] = v
        # aggregate in place update
        for m in range(n - 1, -1, -1):
            pv = st.get((root, path[:m]))
            if pv is not None and is_t(pv, "agg"):
                e = path[m]
                if isinstance(e, str) and e in pv[2] and not any(len(q) > m and q[:m] == path[:m] for q in new if q != path[:m]):
                    st[(root, path[:m])] = self.upd(pv, path[m:], val)
                    st[("#", root)] = frozenset(new)
                    return
                break
        if is_t(val, "upd") and False:
            pass
        new.add(path)
        st[(root, path)] = val
        st[("#", root)] = frozenset(new)

    def _subsumes(self, path, k):
        for a, b in zip(path, k):
            if a == b:
                continue
            if isinstance(a, tuple) and a[0] == "i" and is_t(a[1], "q") and isinstance(b, tuple) and b[0] == "i":
                continue
            return False
        return True

    def upd(self, base, path, val):
        if not path:
            return val
        if is_t(base, "agg"):
            e = path[0]
            if isinstance(e, str) and e in base[2]:
                i = base[2].index(e)
                vals = list(base[3])
                vals[i] = self.upd(vals[i], path[1:], val)
                return ("agg", base[1], base[2], tuple(vals))
        if is_t(base, "upd") and base[2] == path:
            return ("upd", base[1], path, val)
        return ("upd", base, path, val)

    def proj(self, st, v, e):
        k = v[0] if isinstance(v, tuple) and v else None
        if k == "upd":
            path = v[2]
            if isinstance(e, tuple) and e[0] == "i" and is_t(e[1], "flat"):
                for x in e[1][1]:
                    v = self.proj(st, v, x)
                return v
            m = self._match((path[0],), (e,))
            if m is not None:
                bind = m[0]
                if len(path) == 1:
                    return self.subst(v[3], bind) if bind else v[3]
                rest = tuple(self.subst(x, bind) if bind and isinstance(x, tuple) else x for x in path[1:])
                return self.upd(self.proj(st, v[1], e), rest, self.subst(v[3], bind) if bind else v[3])
            if isinstance(e, str) and isinstance(path[0], tuple) and path[0][0] == "i" and is_t(path[0][1], "q") and self._is_acc((e,)):
                # flat-quantified update read through an accessor
                return ("accof", v, (e,))
            if isinstance(e, tuple) and e[0] == "i" and isinstance(path[0], tuple) and path[0][0] == "i":
                if self._distinct(path[0][1], e[1]):
                    return self.proj(st, v[1], e)
                if len(path) == 1:
                    return ("may", self.proj(st, v[1], e), v[3])
                return ("may", self.proj(st, v[1], e), self.upd(self.proj(st, v[1], e), path[1:], v[3]))
            if isinstance(e, tuple) and e[0] == "i" and isinstance(path[0], str) and self._is_acc(path):
                return ("flatof", v, e[1])
            if isinstance(e, str) or e[0] == "dc":
                return self.proj(st, v[1], e)
            return ("pr", v, e)
        if k == "int":
            return v
        if k == "ref" and isinstance(v[1], tuple) and is_t(v[1][1], "newbox") and isinstance(e, str) and e != "*":
            return v      # the pointer fields inside a box just allocated
        if k == "accof":
            suf = v[2] + (e,)
            return self._accof(st, v[1], suf)
        if k == "vec":
            if isinstance(e, tuple) and e[0] == "i":
                if is_t(e[1], "flat"):
                    return self.elem_at(st, v[1], e[1])
                return self.elem_at(st, v[1], e[1])
            if isinstance(e, str) and self._is_acc((e,)):
                if is_t(v[1], "it") and v[1][1] == "const" and is_t(v[1][2], "int"):
                    return v[1][2]
                return ("accof", v, (e,))
        if k == "agg" and isinstance(e, tuple) and e[0] == "i":
            if v[1] == "repeat":
                return v[3][0]
            if v[1] == "array" and is_t(e[1], "int") and e[1][1] < len(v[3]):
                return v[3][e[1][1]]
        if k == "some" and e == "0":
            return v
        if k == "cref" and e == "*":
            return v[1]
        if e == "*" and k == "ref":
            return self.rd(st, v[1], v[2])
        if k == "may" and not (isinstance(e, str) and e == "*"):
            return self.may2(self.proj(st, v[1], e), self.proj(st, v[2], e))
        if isinstance(e, tuple) and e[0] == "i":
            if is_t(e[1], "flat"):
                for x in e[1][1]:
                    v = self.proj(st, v, x)
                return v
            if k == "bc":
                return v[1]
        if k == "bc":
            return v
        if (k == "prj" or k == "phi" and self.gops(v)) and not (e == "*"):
            # regions merged at a join: project lazily
            return ("prj", v, e)
        return super().proj(st, v, e)

    def may2(self, a, b):
        return a if a == b else ("may", a, b)

    def _accof(self, st, v, suf):
        last = suf[-1]
        if isinstance(last, tuple) and last[0] == "i" or last == "b":
            # candidate full element
            if is_t(v, "vec"):
                if self._full(suf):
                    return self.elem_at(st, v[1], ("flat", suf))
            if is_t(v, "upd"):
                if self._full(suf):
                    return self.proj(st, self.subst(v[3], {v[2][0][1]: ("flat", suf)}) if len(v[2]) == 1 else v, ("i", ("flat", suf))) if False else self.subst(v[3], {v[2][0][1]: ("flat", suf)})
        return ("accof", v, suf)

    def _full(self, suf):
        """does the suffix reach one coefficient? (decided by shape: every accessor list index present)"""
        if suf == ("b",):
            return True      # LWE body
        return isinstance(suf[-1], tuple)

    # ------------------------------------------------------------ iterators
    def as_it(self, st, t):
        if is_t(t, "it"):
            return t
        if is_t(t, "vec"):
            return ("it", "val", t)
        if is_t(t, "agg") and isinstance(t[1], tuple) and "ops::range" in t[1][1]:
            nm = t[1][1]
            d = dict(zip(t[2], t[3]))
            if "RangeInclusive" in nm:
                return ("it", "range", d.get("start", ("int", 0)), self.binop("Add", d.get("end", ("int", 0)), ("int", 1)))
            return ("it", "range", d.get("start", ("int", 0)), d.get("end"))
        if is_t(t, "agg") and t[1] in ("array", "repeat"):
            return ("it", "val", t)
        if is_t(t, "ref"):
            v = st.get((t[1], t[2]))
            if v is not None and is_t(v, "it"):
                return v
            if is_t(v, "call") and v[1].startswith("core::ops::range::RangeInclusive::new"):
                return self.as_it(st, v)
            return ("it", "ref", t[1], t[2])
        if is_t(t, "cref"):
            return ("it", "cref", t[1])
        if is_t(t, "call") and t[1].startswith("core::ops::range::RangeInclusive::new") and len(t[3]) == 2:
            return ("it", "range", t[3][0], self.binop("Add", t[3][1], ("int", 1)))
        if is_t(t, "phi"):
            ops = self._phi_leaves(t)
            if ops and all(is_t(o, "agg") and isinstance(o[1], tuple) and o[1][1].endswith("ops::range::Range") for o in ops):
                return ("it", "range", self.proj(st, t, "start"), self.proj(st, t, "end"))
        return ("it", "ref", ("m", t), ())

    def _phi_leaves(self, t, seen=None):
        seen = set() if seen is None else seen
        if not is_t(t, "phi"):
            return [t]
        if t in seen or len(seen) > 40:
            return []
        seen.add(t)
        out = []
        for v in self.gops(t).values():
            out += self._phi_leaves(v, seen)
        return out

    def elem_at(self, st, it, ix):
        """element of iterator/vec term at index term ix"""
        if not is_t(it, "it"):
            it = self.as_it(st, it)
        k = it[1]
        if k == "mapx":
            e = self.elem_at(st, it[2], ix)
            return ("fn", "cb", self.val(st, it[3]) if it[3] is not None else ("int", 0), self.val(st, e))
        if k == "ref":
            return ("ref", it[2], self._flatten(it[3] + (("i", ix),)))
        if k == "cref":
            return ("cref", self.proj(st, it[2], ("i", ix)))
        if k == "val":
            return self.proj(st, it[2], ("i", ix))
        if k in ("const", "once"):
            return it[2]
        if k == "irange":
            return ix
        if k == "range":
            return self.binop("Add", it[2], ix)
        if k == "zip":
            return ("agg", "tuple", ("0", "1"), (self.elem_at(st, it[2], ix), self.elem_at(st, it[3], ix)))
        if k == "enum":
            return ("agg", "tuple", ("0", "1"), (ix, self.elem_at(st, it[2], ix)))
        if k == "rev":
            inner = it[2]
            if is_t(inner, "it") and inner[1] == "range":
                return self.binop("Sub", self.binop("Sub", inner[3], ("int", 1)), ix)
            return self.elem_at(st, inner, ("rev", ix))
        if k == "skip":
            return self.elem_at(st, it[2], self.binop("Add", ix, it[3]))
        if k in ("take", "filter", "take_while", "skip_while"):
            return self.elem_at(st, it[2], ix)
        if k == "step_by":
            return self.elem_at(st, it[2], self.binop("Mul", ix, it[3]))
        if k == "chunks":
            return ("ref", it[2], it[3] + (("ck", it[4]), ("i", ix)))
        if k == "deref":
            e = self.elem_at(st, it[2], ix)
            return self.proj(st, e, "*")
        if k == "map":
            r = self.cl_ret.get(it[3])
            if r is not None:
                return self.subst(r, {("lv", it[4]): ix})
            return ("pending", it[3], ix)
        if k == "repeatwith":
            r = self.cl_ret.get(it[2])
            if r is not None:
                return self.subst(r, {("lv", it[3]): ix})
            return ("pending", it[2], ix)
        if k == "chunk_it":
            return ("it", "sub", it[2], it[3], ix)
        if k == "sub":
            return self.elem_at(st, it[2], self.binop("Add", self.binop("Mul", it[3], it[4]), ix))
        if k == "flatmap":
            r = self.cl_ret.get(it[3])
            if r is None:
                return ("pending", it[3], ix)
            r = self.subst(r, {("lv", it[4]): ("fo", ix)})
            return self.elem_at(st, self.as_it(st, r), ("fi", ix))
        if k == "chain":
            return self.chain_at(st, it, ix)
        if k == "sdigits":
            return ("fn", "digit", it[2], it[3], ix)
        return ("elem", it, ix)

    def chain_at(self, st, it, ix):
        a, b = it[2], it[3]
        e1 = self.elem_at(st, a, ix)
        e2 = b[2] if b[1] == "once" else self.elem_at(st, b, ("after", ix))
        return ("chref", e1, e2, ix)

    def lam(self, st, ref):
        """element formula of a region at the distinguished index X"""
        root, path = self.deref_place(ref)
        if not isinstance(root, int) and is_t(root[1], "cref"):
            v = root[1][1]
            for e in path:
                v = self.proj(st, v, e)
            return ("lam", self.proj(st, v, ("i", X)))
        return ("lam", self.rd(st, root, self._flatten(path + (("i", X),))))

    def at(self, st, lam, ix):
        return self.subst(lam[1], {X: ix})

    def extents(self, it):
        """list of extent descriptors of an iterator: ("len",what) / ("n",term) / restrictions"""
        k = it[1]
        if k in ("ref", "chunks"):
            return [("len", it[2], it[3])]
        if k in ("cref", "val"):
            v = it[2]
            if k == "val" and is_t(v, "vec") and is_t(v[1], "it"):
                return self.extents(v[1])
            return [("lenv", it[2])]
        if k in ("range", "irange"):
            return [("n", it[2], it[3])]
        if k in ("zip",):
            return self.extents(it[2]) + self.extents(it[3])
        if k in ("enum", "rev", "deref", "map", "mapx"):
            return self.extents(it[2])
        if k == "flatmap":
            r = self.cl_ret.get(it[3])
            return self.extents(it[2]) + (self.extents(r) if is_t(r, "it") else [])
        if k == "take" and len(it) > 3:
            xs = self.extents(it[2])
            if len(xs) == 1 and xs[0][0] == "len":
                # the first n elements are the slice [..n]
                return [("len", xs[0][1], self._flatten(xs[0][2] + (("rng", ("int", 0), it[3]),)))]
        if k in ("skip", "take", "step_by", "filter", "take_while", "skip_while"):
            return self.extents(it[2]) + [(k, it[3] if len(it) > 3 else None)]
        if k == "chain":
            return [("chain", it[2], it[3])]
        if k == "once":
            return [("once",)]
        if k in ("chunk_it", "sub"):
            return [("chunked", it[3])]
        if k == "const" and len(it) > 3:
            return [("n", ("int", 0), it[3])]
        if k in ("repeatwith", "const", "sdigits", "digits"):
            return []
        return [("?", it)]

    def span(self, h):
        """(first index, number of iterations or None when it is the natural length) of loop h; None when not known"""
        xs = self.exts.get(h)
        if not xs:
            return None
        ns = [x for x in xs if x[0] == "n"]
        tk = [x[1] for x in xs if x[0] == "take"]
        sp = [x[1] for x in xs if x[0] == "skip"]
        if any(x[0] not in ("n", "take", "skip", "len", "lenv", "once") for x in xs):
            return None
        lo = ("int", 0)
        los = {x[1] for x in ns}
        if len(los) == 1:
            lo = los.pop()
        if len(set(sp)) == 1 and len(los) == 0:
            lo = self.binop("Add", lo, sp[0])
        cs = {self.binop("Sub", x[2], x[1]) for x in ns} | set(tk)
        for x in xs:
            if x[0] == "len" and x[2] and is_t(x[2][-1], "rng") and x[2][-1][2] != ("end",):
                cs.add(self.unlin(self.lin(self.binop("Sub", x[2][-1][2], x[2][-1][1]))))
        if ns and sp:
            cs = {self.binop("Sub", c, sp[0]) for c in cs}
        if len(cs) > 1:
            return lo, ("fn", "min") + tuple(sorted(cs, key=sk))
        return lo, (cs.pop() if cs else None)

    def _within(self, ix, seq):
        """the index runs over the sequence it is looked up in"""
        if not is_t(ix, "lv") or self.curbb not in self.loops.get(ix[1], ()):
            return False
        xs = self.exts.get(ix[1]) or ()
        return any(x[0] == "n" and x[2] == ("len", seq) for x in xs)

    def _anyix(self, path):
        return tuple(("i",) if isinstance(e, tuple) and e and e[0] == "i" and isinstance(e[1], tuple) and e[1][0] in ("lv", "v", "q") else e for e in path)

    def once_written(self, key, h):
        """the place is only written as the single element ending a chain loop h visits"""
        key = (key[0], self._anyix(key[1])) if len(key) == 2 else key
        return ("lv", h) in self.chain_w.get(key, ()) and self.runs_once(h) and not any(b in self.loops[h] for b in self.direct_w.get(key, ()))

    def while_exts(self):
        """ranges of loops controlled by a counter"""
        for h, body in self.loops.items():
            if self.exts.get(h):
                continue
            for bb in body:
                t = self.b.blocks[bb][1]
                if t[0] != "switch" or bb not in self.conds:
                    continue
                out = [x for x in set(succs(t)) if x not in body]
                if len(out) != 1 or len(set(succs(t))) != 2:
                    continue
                c = self.conds[bb]
                vals = {b: v for v, b in t[2]}
                stay = [x for x in set(succs(t)) if x in body][0]
                c = canon_cond(("un", "Not", c) if vals.get(stay) == 0 else c)
                if not is_t(c, "bin") or c[1] not in ("Lt", "Le", "Ne"):
                    continue
                L = self.lin(c[2])
                if L is None or L.get((("lv", h),)) != 1 or any(self._mentions(m, ("lv", h)) for m in L if m != (("lv", h),)) or not self.invariant(c[3], h):
                    continue
                init = self.unlin({m: x for m, x in L.items() if m != (("lv", h),)})
                hi = self.binop("Add", c[3], ("int", 1)) if c[1] == "Le" else c[3]
                self.exts[h] = {("n", init, hi)}

    def unlin(self, L):
        r = None
        for m in sorted(L, key=sk):
            c = L[m]
            t = None
            for x in m:
                t = x if t is None else self.binop("Mul", t, x)
            if t is None:
                t = ("int", c)
            elif c != 1:
                t = self.binop("Mul", ("int", c), t)
            r = t if r is None else self.binop("Add", r, t)
        return ("int", 0) if r is None else r

    def canon_key(self, path, v):
        """output place with its index variables starting where the written region starts; {variable: (first, end)}"""
        m, spans, out = {}, {}, []
        i = 0
        while i < len(path):
            e = path[i]
            cnt_r = None
            if isinstance(e, tuple) and e[0] == "rng" and i + 1 < len(path) and isinstance(path[i + 1], tuple) and path[i + 1][0] == "i":
                t = self.binop("Add", e[1], path[i + 1][1])
                cnt_r = None if e[2] == ("end",) else self.binop("Sub", e[2], e[1])
                i += 2
            elif isinstance(e, tuple) and e[0] == "i":
                t = e[1]
                i += 1
            else:
                out.append(e)
                i += 1
                continue
            if is_t(t, "rev") and is_t(t[1], "q") and t[1] not in m and t[1] not in spans:
                m[t[1]] = t
                spans[t[1]] = (("int", 0), None)
                out.append(("i", t[1]))
                continue
            L = self.lin(t)
            qs = [x for x in (L or ()) if len(x) == 1 and is_t(x[0], "q") and L[x] in (1, -1)]
            if L is None or not qs:
                out.append(("i", t))
                continue
            q = qs[-1] if len(qs) == 1 else None
            if q is None:
                # the innermost loop's variable
                ds = sorted(qs, key=lambda x: len(self.inloops.get(x[0][1], ())) if isinstance(x[0][1], int) else 0)
                q = ds[-1]
            qv = q[0]
            if qv in m or qv in spans or any(self._mentions(x, qv) for x in L if x != q):
                out.append(("i", t))
                continue
            rest, off = {}, {}
            for x, c in L.items():
                if x == q:
                    continue
                vs = []
                self._free(x, vs)
                (rest if vs or any(self._hasphi(y) for y in x) else off)[x] = c
            sp = self.span(qv[1])
            cnt = sp[1] if sp else None
            if cnt_r is not None and cnt is None:
                cnt = cnt_r
            o = self.unlin(off)
            if L[q] == 1:
                lo = o
                hi = self.binop("Add", o, cnt) if cnt is not None else None
                if o != ("int", 0):
                    m[qv] = self.binop("Sub", qv, o)
            else:
                lo = self.binop("Add", self.binop("Sub", o, cnt), ("int", 1)) if cnt is not None else ("int", 0)
                hi = self.binop("Add", o, ("int", 1))
                m[qv] = self.binop("Sub", o, qv)
            spans[qv] = (lo, hi)
            out.append(("i", self.binop("Add", self.unlin(rest), qv)))
        if m:
            v = self.subst(v, m)
        return tuple(out), v, spans

    def _hasphi(self, t, prj=False):
        """does t contain the phi of a loop head (or, if asked, anything projected out of something other than a join)?"""
        if not isinstance(t, tuple):
            return False
        if is_t(t, "phi"):
            return t[1] in self.loops
        if prj and is_t(t, "prj") and not is_t(t[1], "phi"):
            return True
        return any(self._hasphi(x, prj) for x in t if isinstance(x, tuple))

    def clarg2(self, st, bb, j, q):
        c = self.calls_tmp.get(bb)
        hub = None
        t = self.b.blocks[bb][1]
        hub = t[4]
        if c is None:
            return ("pendingarg", bb, j, q)
        n = short(c["bn"])
        args = c["args"]
        isopt = c["name"].startswith("core::option") or c["name"].startswith("core::result") or c["bn"].startswith("core::option") or c["bn"].startswith("core::result")
        if isopt:
            if q == 0:
                return self._unw(st, args[0], "Some" if "option" in c["bn"] else "Ok")
            return ("clarg", bb, j, q)
        if n in ("map", "for_each", "filter", "any", "all", "position", "flat_map", "filter_map", "inspect", "find", "try_for_each", "take_while", "skip_while") and q == 0 and args:
            it = self.as_it(st, args[0])
            e = self.elem_at(st, it, ("lv", hub))
            self.exts.setdefault(hub, set()).update(self.extents(it))
            if n in ("filter", "inspect", "find", "take_while", "skip_while"):
                return ("cref", e)
            return e
        if n == "fold" and j == 2 and args:
            it = self.as_it(st, args[0])
            self.exts.setdefault(hub, set()).update(self.extents(it))
            if q == 0:
                return ("facc", bb)
            return self.elem_at(st, it, ("lv", hub))
        return ("clarg", bb, j, q)

    # ------------------------------------------------------------ calls
    def std_model(self, st, bb, rec, bn, sn, args, t, tys):
        name = rec["name"]
        if name == "<indirect>" and rec["fterm"] is not None:
            ft = self.val(st, rec["fterm"])
            if is_t(ft, "fnp"):
                f = self.prog.fns[ft[1]]["n"] if self.prog is not None and ft[1] in self.prog.fns else ft[1]
                at = self.atoms.get(plain(f)) or self.atoms.get(plain(ft[1]))
                if at is not None:
                    r = at(self, st, dict(rec, name=f))
                    if r is not None:
                        return r, False
                return ("fn", short(f)) + tuple(self.val(st, a) for a in args), True
            return ("fn", "apply", ft) + tuple(self.val(st, a) for a in args), True
        at = self.atoms.get(plain(name)) or self.atoms.get(bn)
        if at is not None:
            r = at(self, st, rec)
            if r is not None:
                return r, False
        # accessors
        if (name or "").startswith(ENT) and sn in ACC and args:
            r = self.accessor(st, name, sn, args)
            if r is not None:
                return r, False
        if (name or "").startswith((ENT, "<" + ENT)) and "Iterator" in name:
            r = self.entity_iter(st, bb, name, sn, args)
            if r is not None:
                return r, False
        if sn in ("from", "into", "from_u64") and len(args) == 1 and is_t(args[0], "int") and ("convert::" in bn or sn == "from_u64"):
            return args[0], False
        if "scratch::allocate_scratch" in name:
            return ("ref", ("m", ("scratch", bb) + self.lvs(bb)), ()), False
        if bn.startswith("core::option::Option") and sn in ("as_mut", "as_ref") and len(args) == 1 and is_t(args[0], "ref"):
            # a reference to the payload, present exactly when the option is
            root, path = args[0][1], args[0][2]
            return ("optref", root, path, self.discr(self.rd(st, root, path))), False
        if sn in ("as_mut_slice", "as_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "to_mut", "as_mut_ptr", "as_ptr", "as_deref", "from_ref", "from_mut", "into_boxed_slice", "cast_slice", "cast_slice_mut", "must_cast_slice", "as_words", "as_words_mut", "as_limbs", "as_limbs_mut") and len(args) == 1:
            a = args[0]
            if is_t(a, "ref") or is_t(a, "cref"):
                # ScratchBuffer local holding a ref
                if is_t(a, "ref"):
                    v = st.get((a[1], a[2]))
                    if v is not None and is_t(v, "ref") and sn in ("as_mut_slice", "as_slice", "as_mut_ptr", "deref", "deref_mut"):
                        return v, False
                return a, False
            return a, False
        # arithmetic
        if sn in PURE_ARITH and (bn.startswith(ARITH_TRAITS) or "::ops::arith::" in bn or "wrapping" in bn or bn.startswith("core::num")):
            op = PURE_ARITH[sn]
            vals = [self.val(st, a) for a in args]
            if sn.endswith("_assign"):
                root, path = self.deref_place(args[0])
                cur = self.rd(st, root, path)
                v2 = args[1] if not self._isref(args[1]) else self.rd(st, *self.deref_place(args[1]))
                self.wr(st, root, path, (op, cur, v2))
                return ("unit",), False
            return (op,) + tuple(vals), False
        if sn in ("cast_unsigned", "cast_signed") and len(args) == 1:
            m = re.search(r"\b([iu])(8|16|32|64|128|size)\b[>:]", name)
            if m:
                to = ("u" if sn == "cast_unsigned" else "i") + m.group(2)
                return ("cast", "IntToInt", to, self.val(st, args[0])), False
        if bn in ("core::mem::size_of", "core::mem::align_of") and not args and rec["ref"] and rec["ref"]["ga"]:
            ty = subst(tys[rec["ref"]["ga"][0]], self.b.frames[self.b.blocks[bb][2]].get("sub"))
            n = ty.s.rsplit("::", 1)[-1]
            if n in KNOWN_ALIGN:
                return ("int", KNOWN_ALIGN[n]), False
            if n not in KNOWN_SIZE:
                return ("fn", "%s<%s>" % (sn, ty.s)), False
            return ("int", KNOWN_SIZE[n]), False
        if bn in BIT_TRAITS and len(args) == 2:
            return self.binop(BIT_TRAITS[bn], self.val(st, args[0]), self.val(st, args[1])), False
        if bn in ("num_traits::ops::mul_add::MulAdd::mul_add", "num::traits::MulAdd::mul_add") or sn == "mul_add":
            vals = [self.val(st, a) for a in args]
            return ("add", ("mul", vals[0], vals[1]), vals[2]), False
        if sn in ("zero", "one") and not args:
            return ("int", 0 if sn == "zero" else 1), False
        if bn == "core::default::Default::default" and not args:
            return ("default", t[3] and ""), False
        if bn == "core::iter::traits::iterator::Iterator::next" or sn == "next" and len(args) == 1:
            return self.next_of(st, bb, args[0]), False
        if sn in ADAPTORS and args and ("iter" in bn or "slice" in bn or "rayon" in bn or "[T]" in bn or "itertools" in bn or bn.startswith("core::ops::range")):
            r = self.adaptor(st, bb, sn, args, rec)
            if r is not None:
                return r, False
        if bn.startswith("subtle::") or ".subtle" in bn:
            if sn in ("ct_lt", "ct_gt", "ct_eq", "ct_ne") and len(args) == 2:
                a, b_ = self.val(st, args[0]), self.val(st, args[1])
                return (("bin", {"ct_lt": "Lt", "ct_eq": "Eq", "ct_ne": "Ne"}[sn], a, b_) if sn != "ct_gt" else ("bin", "Lt", b_, a)), False
            if sn == "conditional_assign" and len(args) == 3:
                root, path = self.deref_place(args[0])
                self.wr(st, root, path, ("sel", self.val(st, args[2]), self.val(st, args[1]), self.val(st, args[0])))
                return ("unit",), False
            if sn == "conditional_select" and len(args) == 3:
                return ("sel", self.val(st, args[2]), self.val(st, args[1]), self.val(st, args[0])), False
        if bn == "core::ops::bit::Not::not" and len(args) == 1:
            return ("un", "Not", self.val(st, args[0])), False
        if sn == "new_uninit" and "Box" in name and not args:
            return ("ref", ("m", ("newbox", bb) + self.lvs(bb)), ()), False
        if sn == "box_assume_init_into_vec_unsafe" and is_t(args[0], "ref"):
            root, path = args[0][1], args[0][2]
            return self.rd(st, root, path + ("value",)), False
        if sn in ("collect", "to_vec", "into_vec", "from_iter", "from_slice", "collect_vec", "into_boxed") and args and ("iter" in bn or "slice" in bn or "[T]" in bn or "aligned_vec" in bn or "rayon" in bn or "alloc" in bn):
            a = args[-1]
            if is_t(a, "it"):
                return ("vec", a), False
            v = self.val(st, a)
            return v, False
        if sn in ("__from_elem", "from_elem", "repeat_n") and args:
            vals = [a for a in args]
            if len(vals) >= 2:
                return ("vec", ("it", "const", vals[-2], self.val(st, vals[-1]))), False
            return ("vec", ("it", "const", vals[0])), False
        if bn in FN_TRAITS and len(args) == 2 and is_t(args[1], "agg") and args[1][1] == "tuple":
            return self.callback(st, bb, rec), False
        if sn == "once" and "iter" in bn and len(args) == 1:
            return ("it", "once", args[0]), False
        if sn in ("from", "into") and bn.startswith("core::convert::") and len(args) == 1:
            return self.val(st, args[0]) if not (is_t(args[0], "it")) else args[0], False
        if sn in ("repeat_with", "from_fn") and bb in self.b.closure_rets:
            return ("it", "repeatwith", bb, t[4]), False
        if sn in ("for_each", "for_each_with"):
            return ("unit",), False
        if sn == "sum" and args and is_t(args[0], "it"):
            it = args[0]
            self.exts.setdefault(("sum", bb), set()).update(self.extents(it))
            e = self.elem_at(st, it, ("sx", bb))
            return ("sum", ("sx", bb), self.val(st, e)), False
        if sn in ("any", "all") and len(args) == 2 and bb in self.b.closure_rets and "iterator" in (bn + name).lower():
            r = self.cl_ret.get(bb)
            if r is None:
                return ("pending", bb), False
            self.exts.setdefault(("sum", bb), set()).update(self.exts.get(t[4], ()))
            return ("exq", ("sx", bb), self.subst(r, {("lv", t[4]): ("sx", bb), ("brk", t[4]): ("sx", bb)}), sn == "all"), False
        if sn == "fold" and args:
            r = self.cl_ret.get(bb)
            hub = t[4]
            if r is None:
                return ("pending", bb), False
            return ("fold", bb, hub, args[1], r), False
        if sn in ("split_at_mut", "split_at") and len(args) == 2:
            root, path = self.deref_place(args[0])
            return ("agg", "tuple", ("0", "1"), (("ref", root, self._flatten(path + (("rng", ("int", 0), args[1]),))), ("ref", root, self._flatten(path + (("rng", args[1], ("end",)),))))), False
        if bn in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut") and len(args) == 2:
            root, path = self.deref_place(args[0])
            ix = args[1]
            if is_t(ix, "agg") and isinstance(ix[1], tuple) and "ops::range" in ix[1][1]:
                d = dict(zip(ix[2], ix[3]))
                nm = short(ix[1][1])
                if nm == "RangeFull":
                    pe = None
                else:
                    pe = ("rng", d.get("start", ("int", 0)), d.get("end", ("end",)) if nm != "RangeToInclusive" else self.binop("Add", d["end"], ("int", 1)))
                np_ = path if pe is None else path + (pe,)
            else:
                np_ = path + (("i", ix),)
            if not isinstance(root, int) and is_t(root[1], "cref"):
                v = root[1][1]
                for e in np_:
                    v = self.proj(st, v, e)
                return ("cref", v), False
            return ("ref", root, self._flatten(np_)), False
        if sn in ("get_unchecked", "get_unchecked_mut") and len(args) == 2:
            root, path = self.deref_place(args[0])
            return ("ref", root, path + (("i", args[1]),)), False
        if sn in ("get", "get_mut") and len(args) == 2 and ("slice" in bn or "[T]" in bn or "::Vec" in bn) and rec["optys"][1] is not None and "Range" not in str(rec["optys"][1]):
            # the element exists exactly when the index is below the length
            root, path = self.deref_place(args[0])
            e = self.proj(st, args[0][1], ("i", args[1])) if is_t(args[0], "cref") else None
            c = ("int", 1) if self._within(args[1], args[0]) else ("bin", "Lt", args[1], ("len", args[0]))
            return ("opt", c, ("cref", e) if e is not None else ("ref", root, self._flatten(path + (("i", args[1]),)))), False
        if args and is_t(args[0], "opt"):
            o = args[0]
            if sn in ("copied", "cloned") and len(args) == 1:
                return ("opt", o[1], self.val(st, o[2])), False
            if sn in ("unwrap", "expect", "unwrap_unchecked"):
                return o[2], False
            if sn in ("unwrap_or",) and len(args) == 2:
                return ("sel", o[1], self.val(st, o[2]), self.val(st, args[1])), False
            if sn == "unwrap_or_default" or sn == "unwrap_or" :
                return ("sel", o[1], self.val(st, o[2]), ("default",)), False
        if args and is_t(args[0], "optref") and sn in ("unwrap", "expect", "unwrap_unchecked"):
            return ("ref", args[0][1], args[0][2] + (("dc", "Some"), "0")), False
        if sn in ("is_some", "is_none") and len(args) == 1 and is_t(args[0], "ref"):
            o = self.rd(st, *self.deref_place(args[0]))
            if is_t(o, "opt"):
                return (o[1] if sn == "is_some" else ("un", "Not", o[1])), False
        if bn in ("core::option::Option::is_some", "core::option::Option::is_none", "core::result::Result::is_ok", "core::result::Result::is_err") and len(args) == 1:
            o = self.val(st, args[0])
            d = self.discr(o)
            if sn in ("is_none", "is_ok"):
                d = ("int", 1 - d[1]) if is_t(d, "int") else d[2] if is_t(d, "un") and d[1] == "Not" else ("un", "Not", d)
            return d, False
        if sn in ("nth", "nth_back") and len(args) == 2 and "iter" in (bn + name).lower():
            root, path = self.deref_place(args[0])
            it = self.as_it(st, self.rd(st, root, path))
            return ("nextv", it, args[1] if sn == "nth" else ("bin", "Sub", ("fromend", 1), args[1])), False
        if sn in ("last", "last_mut", "first", "first_mut") and len(args) == 1:
            root, path = self.deref_place(args[0])
            return ("agg", ("adt", "core::option::Option", 1, "Some"), ("0",), (("ref", root, path + (("i", ("fromend", 1) if "last" in sn else ("int", 0)),)),)), False
        if bn in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned") and args:
            return self.val(st, args[0]), False
        if sn in ("copy_from_slice", "clone_from_slice", "clone_from") and len(args) == 2:
            d, s_ = self.deref_place(args[0]), self.deref_place(args[1])
            L = ("cp", bb)
            v = self.rd(st, s_[0], s_[1] + (("i", ("q", L)),))
            self.wr(st, d[0], d[1] + (("i", ("q", L)),), v)
            self.exts.setdefault(L, set()).update([("len",) + d, ("len",) + s_])
            return ("unit",), False
        if sn in ("rotate_left", "rotate_right", "reverse") and ("slice" in bn or "[T]" in bn):
            d = self.deref_place(args[0])
            q = ("q", ("cp", bb))
            lam = self.rd(st, d[0], self._flatten(d[1] + (("i", X),)))
            amt = ("int", 0) if sn == "reverse" else args[1]
            self.wr(st, d[0], d[1] + (("i", q),), ("idx", ("fn", sn, lam, amt), q))
            return ("unit",), False
        if sn == "fill" and len(args) == 2 and ("slice" in bn or "[T]" in bn):
            d = self.deref_place(args[0])
            L = ("cp", bb)
            self.wr(st, d[0], d[1] + (("i", ("q", L)),), args[1])
            return ("unit",), False
        if bn in ("core::mem::swap",) and len(args) == 2:
            a, b = self.deref_place(args[0]), self.deref_place(args[1])
            va, vb = self.rd(st, *a), self.rd(st, *b)
            self.wr(st, a[0], a[1], vb)
            self.wr(st, b[0], b[1], va)
            return ("unit",), False
        if bn in ("core::mem::replace", "core::mem::take") and args:
            a = self.deref_place(args[0])
            va = self.rd(st, *a)
            self.wr(st, a[0], a[1], args[1] if len(args) > 1 else ("default",))
            return va, False
        if sn in ("into", "from", "borrow", "try_into", "to_owned", "unwrap_infallible") and len(args) == 1:
            pass
        if sn in ("len", "is_empty") and len(args) == 1:
            a = args[0]
            if sn == "len":
                if is_t(a, "ref") or is_t(a, "cref"):
                    return ("len", a), False
                return ("len", a), False
            if "Vec" in bn or "slice" in bn or "[T]" in bn:
                return ("bin", "Eq", ("len", a), ("int", 0)), False
            return ("call", bn, 0, args), False
        if bn in ("core::mem::drop", "core::mem::forget"):
            return ("unit",), False
        if sn in ("with_capacity", "new") and ("Vec" in name or "AVec" in name) and "::new" in name or sn == "with_capacity":
            return ("vecnew", bb) + self.lvs(bb), False
        if sn in ("push",) and len(args) == 2 and ("Vec" in name):
            L = self.inner(bb)
            root, path = self.deref_place(args[0])
            if L is not None:
                self.wr(st, root, path + (("i", ("lv", L)),), args[1])
            else:
                self.wr(st, root, path + (("i", ("push", bb)),), args[1])
            return ("unit",), False
        r, mut = super().std_model(st, bb, rec, bn, sn, args, t, tys)
        if is_t(r, "call"):
            # pure unless it can mutate through an argument or is a known source of randomness
            hasmut = any(ty is not None and ty.is_mut_ref() for ty in rec["optys"])
            if not hasmut and not self.impure(bn, name):
                r = ("call", bn, 0, tuple(self.val(st, a) for a in args))
            else:
                r = ("call", bn, (bb,) + self.lvs(bb), tuple(self.val(st, a) for a in args))
            self.unknown.setdefault(bn, []).append(bb)
        return r, mut

    def mutval(self, st, rec, i):
        """what an external call leaves behind an exclusive reference: a function of the call's arguments"""
        bn, bb = rec["bn"], rec["bb"]
        if self.impure(bn, rec["name"]) or rec["name"] == "<indirect>":
            return ("mut", bb, i, rec["name"])
        vals = []
        for a in rec["args"]:
            v = self.val(st, a)
            vals.append(v)
        return ("fn", "%s'%d" % (short(bn), i)) + tuple(vals)

    def callback(self, st, bb, rec):
        """a call of a caller-supplied function: its exclusive reference arguments are overwritten with a value that depends
        on the function and on the other arguments"""
        args = rec["args"]
        fv = self.val(st, args[0])
        ty = rec["optys"][1]
        els = args[1][3]
        if is_t(fv, "fnp"):
            f = self.prog.fns[fv[1]]["n"] if self.prog is not None and fv[1] in self.prog.fns else fv[1]
            at = self.atoms.get(plain(f))
            if at is not None:
                r = at(self, st, dict(rec, name=f, args=tuple(els), optys=list(ty.a) if ty is not None and ty.k == "tuple" else []))
                if r is not None:
                    return r
        tys = [ty.a[jx] if ty is not None and ty.k == "tuple" and jx < len(ty.a) else None for jx in range(len(els))]
        muts = [jx for jx, et in enumerate(tys) if et is not None and et.is_mut_ref()]
        vals = []
        for jx, a in enumerate(els):
            if jx in muts:
                continue
            if tys[jx] is not None and tys[jx].k in ("ref", "ptr"):
                root, path = self.deref_place(a)
                if not isinstance(root, int) and is_t(root[1], "cref"):
                    v = root[1][1]
                    for e in path:
                        v = self.proj(st, v, e)
                    vals.append(v)
                elif tys[jx].peel().k in ("slice", "array", "adt"):
                    vals.append(self.rd(st, root, path + (("i", X),)))
                else:
                    vals.append(self.val(st, a))
            else:
                vals.append(self.val(st, a))
        v = ("fn", "cb", fv) + tuple(vals)
        for n, jx in enumerate(muts):
            root, path = self.deref_place(els[jx])
            q = ("q", ("cp", bb, jx))
            self.wr(st, root, path + (("i", q),), ("idx", v if n == 0 else ("fld", v, str(n)), q))
        return v

    def _reads(self, v):
        return v != ("lam", ("int", 0))

    def impure(self, bn, name):
        bn, name = bn.replace("sample_extract", ""), (name or "").replace("sample_extract", "")
        return any(x in bn or x in name for x in ("rng", "Rng", "rand", "random", "sample", "next_u64", "next_u32", "fill_bytes"))

    def _isref(self, a):
        return is_t(a, "ref") or is_t(a, "cref")

    def val(self, st, a):
        """value of an operand that may be passed by reference"""
        n = 0
        while n < 4:
            if is_t(a, "ref"):
                a = self.rd(st, a[1], a[2])
            elif is_t(a, "cref"):
                a = a[1]
            else:
                break
            n += 1
        if is_t(a, "arg") and self.b.locals[a[1]].k == "ref" or is_t(a, "scratch"):
            return self.rd(st, ("m", a), ())
        return a

    def copy_region(self, st, dst, src):
        """dst := src for whole regions (root, path)"""
        v = self.rd_base(st, src[0], src[1])
        n = len(src[1])
        subs = [(k, st[(src[0], k)]) for k in st.get(("#", src[0]), ()) if len(k) > n and k[:n] == src[1] and (src[0], k) in st] if src[0] is not None else []
        self.wr(st, dst[0], dst[1], v)
        for k, x in sorted(subs, key=lambda p: (len(p[0]), sk(p[0]))):
            self.wr(st, dst[0], dst[1] + k[n:], x)

    def rd_base(self, st, root, path):
        """region value without the updates of its parts (those are copied separately)"""
        idx = st.get(("#", root), frozenset())
        n = len(path)
        deeper = frozenset(k for k in idx if len(k) > n and k[:n] == path)
        if not deeper:
            return self.rd(st, root, path)
        st2 = dict(st)
        for k in deeper:
            st2.pop((root, k), None)
        st2[("#", root)] = idx - deeper
        return self.rd(st2, root, path)

    def accessor(self, st, name, sn, args):
        spec = ACC[sn]
        root, path = self.deref_place(args[0])
        if not isinstance(root, int) and is_t(root[1], "cref"):
            return None
        mod = name[len(ENT):].split("::")[0]
        lwe = mod in LWE_KINDS
        if spec == "b":
            return ("ref", root, path + ("b",))
        if spec == "?a":
            return ("ref", root, path + ("a",)) if lwe else ("it", "ref", root, path + ("a",))
        if spec == "?s":
            return ("ref", root, path) if mod.startswith("lwe") else ("it", "ref", root, path + ("s",))
        if spec == "pair":
            a = ("ref", root, path + ("a",)) if lwe else ("it", "ref", root, path + ("a",))
            return ("agg", "tuple", ("0", "1"), (a, ("ref", root, path + ("b",))))
        if spec.startswith("pair:"):
            ns = spec[5:].split(",")
            return ("agg", "tuple", ("0", "1"), tuple(("ref", root, path + (n,)) for n in ns))
        if spec.startswith("it:"):
            return ("it", "ref", root, path + (spec[3:],))
        if spec.startswith("at:"):
            return ("ref", root, path + (spec[3:], ("i", args[1]), ("i", args[2])))
        return None

    def entity_iter(self, st, bb, name, sn, args):
        """the generated iterators over fixed-stride sub-entities (their bodies are checked on their own)"""
        if sn == "new" and len(args) == 2:
            a = args[0]
            root, path = self.deref_place(a)
            if not isinstance(root, int) and is_t(root[1], "cref"):
                return None
            return ("it", "chunks", root, path, self.val(st, args[1]))
        if sn in ("next",) and len(args) == 1:
            return self.next_of(st, bb, args[0])
        return None

    def defs_of(self, local):
        if self._defs is None:
            d = self._defs = {}
            for bb, (ss, t, _) in enumerate(self.b.blocks):
                for x in ss:
                    if x[0] == "=" and len(x[1]) == 1:
                        d.setdefault(x[1][0], set()).add(bb)
                if t[0] == "call" and t[3] and len(t[3]) == 1:
                    d.setdefault(t[3][0], set()).add(bb)
        return self._defs.get(local, ())

    def drive(self, root, bb):
        """the loops that advance the iterator held at root, innermost first"""
        r = []
        for L in self.inloops.get(bb, ()):
            if isinstance(root, int) and any(d in self.loops[L] for d in self.defs_of(root)):
                break
            r.append(L)
        return r

    def level(self, root, path, bb):
        """index of the element an iterator call at bb yields"""
        sites = self.nsites.setdefault((root, path), set())
        sites.add(bb)
        Ls = self.drive(root, bb)
        if Ls:
            if sum(1 for x in sites if x in self.loops[Ls[-1]]) > 1:
                return ("lvl", bb, tuple(sorted(sites)))
            if len(Ls) > 1 and bb in self.loops[Ls[0]] and not self.head_iter(Ls[0], bb):
                return ("seqix",) + tuple(("lv", L) for L in reversed(Ls))
            return ("lv", Ls[0])
        return ("int", sum(1 for x in sites if x != bb and self.dom.dominates(x, bb)))

    def head_iter(self, L, bb):
        """does the call at bb decide whether loop L goes on (so that the iterator is exhausted there)?"""
        t = self.b.blocks[bb][1]
        n = t[4]
        for _ in range(4):
            if n is None:
                return False
            ss = succs(self.b.blocks[n][1])
            if len(set(ss)) > 1:
                return any(x not in self.loops[L] for x in ss)
            n = ss[0] if ss else None
        return False

    def next_of(self, st, bb, a):
        root, path = self.deref_place(a)
        v = self.rd(st, root, path)
        it = self.as_it(st, v)
        lvl = self.level(root, path, bb)
        if is_t(lvl, "lv"):
            self.exts.setdefault(lvl[1], set()).update(self.extents(it))
        if is_t(it, "it") and it[1] == "range" and is_t(lvl, "lv") and (is_t(it[2], "phi") or is_t(it[2], "prj")) and self._hasphi(it[2], True):
            it = ("it", "irange", it[2], it[3])      # the loop variable is the element itself
        return ("nextv", it, lvl)

    def adaptor(self, st, bb, sn, args, rec):
        it = self.as_it(st, args[0])
        if sn in ("into_iter", "iter", "iter_mut", "into_par_iter", "par_iter", "par_iter_mut", "peekable", "by_ref", "with_min_len", "with_max_len", "fuse"):
            # by-value collection held in a local
            if sn == "into_iter" and is_t(args[0], "upd"):
                return ("it", "val", args[0])
            return it
        if sn in ("chunks", "chunks_exact") and is_t(args[0], "it"):
            return ("it", "chunk_it", it, args[1])
        if sn in ("zip", "zip_eq"):
            return ("it", "zip", it, self.as_it(st, args[1]))
        if sn == "enumerate":
            return ("it", "enum", it)
        if sn == "rev":
            return ("it", "rev", it)
        if sn in ("skip", "take", "step_by"):
            return ("it", sn, it, args[1])
        if sn in ("cloned", "copied"):
            return ("it", "deref", it)
        if sn in ("filter", "take_while", "skip_while"):
            return ("it", sn, it, ("cl", bb))
        if sn == "flat_map" and bb in self.b.closure_rets:
            return ("it", "flatmap", it, bb, self.b.blocks[bb][1][4])
        if sn == "map":
            if bb in self.b.closure_rets:
                hub = self.b.blocks[bb][1][4]
                return ("it", "map", it, bb, hub)
            return ("it", "mapx", it, args[1] if len(args) > 1 else None)
        if sn == "chain":
            return ("it", "chain", it, self.as_it(st, args[1]))
        if sn in ("chunks", "chunks_exact", "chunks_mut", "chunks_exact_mut", "par_chunks", "par_chunks_mut"):
            root, path = self.deref_place(args[0])
            return ("it", "chunks", root, path, args[1])
        return None

    def swcond(self, bb, c, vals):
        """the condition that the switch at bb takes the edge for these values"""
        if is_t(c, "discr"):
            if len(c) > 2:
                return ("sw", c, vals)
            if len(vals) == 1 and vals[0] in (0, 1):
                return c if vals[0] else ("un", "Not", c)
            return ("sw", c, vals)
        if bb in self.intsw:
            return ("bin", "Eq", c, ("int", vals[0])) if len(vals) == 1 else ("sw", c, vals)
        if len(vals) == 1 and vals[0] in (0, 1):
            return c if vals[0] else ("un", "Not", c)
        return ("sw", c, vals)

    def discr(self, v):
        if is_t(v, "opt"):
            return v[1]
        if is_t(v, "optref"):
            return v[3]
        return super().discr(v)

    def _payload(self, st, v, e):
        if is_t(v[1], "optref") and v[2] == "Some" and e == "0":
            return ("ref", v[1][1], v[1][2] + (("dc", "Some"), "0"))
        src, var = v[1], v[2]
        if is_t(src, "opt") and var == "Some":
            return src[2]
        if is_t(src, "branch") and is_t(src[1], "opt") and var == "Continue":
            return src[1][2]
        if is_t(src, "nextv") and var == "Some":
            return self.elem_at(st, src[1], src[2])
        return super()._payload(st, v, e)

    # ------------------------------------------------------------ fixpoint with loop renaming
    def _ren_state(self, st, m):
        """rename loop variables in keys and values of a state"""
        new = {}
        memo = {}
        roots = {}
        outs = [a[1] for a, b in m.items() if a[0] == "v" and is_t(b, "q")]
        halves = self.halves(st, outs) if outs else {}
        for k, v in st.items():
            if k[0] == "#":
                continue
            root, path = k
            nroot = self._subst(root, m, memo) if isinstance(root, tuple) else root
            if outs:
                path = halves.get(k) or self.part_key(root, path, outs)
            npath = self._flatten(tuple(self._subst(e, m, memo) if isinstance(e, tuple) else e for e in path))
            nv = self._subst(v, m, memo)
            if outs and npath and len(npath) >= 2 and is_t(npath[-2], "rng"):
                npath, nv = self.mixed_key(npath, nv, outs)
            roots.setdefault(nroot, []).append((k != (nroot, npath), npath, nv))
        out = {}
        for root, l in roots.items():
            # unrenamed first, renamed override
            l.sort(key=lambda x: (x[0], len(x[1]), repr(x[1])))
            for ch, path, v in l:
                if ch:
                    self.wr_renamed(out, root, path, v)
                else:
                    idx = out.get(("#", root), frozenset())
                    out[(root, path)] = v
                    out[("#", root)] = idx | {path}
        return out

    def halves(self, st, outs):
        """places a loop over 0..n wrote at i and at i + n: the first n elements and the rest"""
        groups = {}
        for k in st:
            if k[0] == "#" or not k[1]:
                continue
            e = k[1][-1]
            if not (isinstance(e, tuple) and len(e) == 2 and e[0] == "i") or isinstance(e[1], tuple) and e[1] and e[1][0] == "flat":
                continue
            for h in outs:
                v = ("v", h)
                if self._mentions(e, v) and not self._mentions(k[1][:-1], v):
                    L = self.lin(("bin", "Sub", e[1], v))
                    off = None if L is None else self.unlin(L)
                    if off is not None and not self._mentions(off, v):
                        groups.setdefault((k[0], k[1][:-1], h), {})[off] = k
        out = {}
        for (root, pre, h), g in groups.items():
            if len(g) != 2 or ("int", 0) not in g:
                continue
            c = next(x for x in g if x != ("int", 0))
            if is_t(c, "int") and c[1] <= 0:
                continue
            out[g[("int", 0)]] = pre + (("rng", ("int", 0), c), ("i", ("v", h)))
            out[g[c]] = pre + (("rng", c, ("end",)), ("i", ("v", h)))
        return out

    def part_key(self, root, path, outs):
        """place written by a loop that is over and visited only a part of a sequence: that part"""
        e = path[-1] if path else None
        if not (isinstance(e, tuple) and e and e[0] == "i") or isinstance(e[1], tuple) and e[1][0] == "flat":
            return path
        for h in outs:
            v = ("v", h)
            if not self._mentions(e, v):
                continue
            for x in self.exts.get(h, ()):
                if x[0] == "len" and x[1] == root and x[2] and is_t(x[2][-1], "rng") and x[2][:-1] == path[:-1] and x[2][-1][2] != ("end",):
                    _, lo, hi = x[2][-1]
                    if self.lin(("bin", "Sub", ("bin", "Sub", e[1], v), lo)) == {(): 0}:
                        return path[:-1] + (("rng", lo, hi), ("i", v))
        return path

    def mixed_key(self, path, val, outs):
        """consecutive parts of equal length, one per pass of a counted loop: one part, indexed by quotient and remainder"""
        _, lo, hi = path[-2]
        e = path[-1][1]
        if not is_t(e, "q") or hi == ("end",):
            return path, val
        for h in outs:
            q = ("q", h)
            if not self._mentions(lo, q) or q == e:
                continue
            size = self.lin(("bin", "Sub", hi, lo))
            L = self.lin(lo)
            sp = self.span(h)
            if size is None or L is None or sp is None or sp[0] != ("int", 0) or sp[1] is None:
                continue
            S = self.unlin(size)
            if self._mentions(S, q) or self.lin(("bin", "Sub", lo, ("bin", "Mul", q, S))) != {(): 0}:
                continue
            n = ("q", ("mx", h))
            self.exts[n[1]] = {("n", ("int", 0), self.binop("Mul", sp[1], S))}
            return path[:-2] + (("rng", ("int", 0), self.binop("Mul", sp[1], S)), ("i", n)), self.subst(val, {q: ("bin", "Div", n, S), e: ("bin", "Rem", n, S)})
        return path, val

    def wr_renamed(self, st, root, path, val):
        self.wr(st, root, path, val, via=True)

    def _edge(self, st, a, b):
        """rename across a control-flow edge a->b"""
        m = {}
        la, lb = self.inloops.get(a, ()), self.inloops.get(b, ())
        lbs = set(lb)
        for h in la:
            if h == b and b in self.loops and a in self.loops[b] and self.dom.dominates(b, a):
                m[("lv", h)] = ("v", h)
            elif h not in lbs:
                m[("v", h)] = ("q", h)
                m[("lv", h)] = ("brk", h)
        if b in self.loops and a in self.loops[b] and self.dom.dominates(b, a):
            m[("lv", b)] = ("v", b)
        if not m:
            return st
        return self._ren_state(st, m)

    def _join2(self, bb, pred, a, b):
        """join b (coming from pred) into a"""
        keys = set(k for k in a if k[0] != "#") | set(k for k in b if k[0] != "#")
        vh = ("v", bb)
        new = None
        keys = [k for k in keys if a.get(k) is None or a.get(k) != b.get(k)]
        keys.sort(key=sk)
        for k in keys:
            root, path = k
            va, vb = a.get(k), b.get(k)
            vac = bb in self.loops and self._mentions((root, path) if isinstance(root, tuple) else path, vh)
            ph = self.mkphi(bb, k)
            if is_t(va, "phi") and va == ph:
                if vb is None and not vac:
                    vb = self._rd_default(b, root, path)
                if vb is not None and vb != va:
                    self.phi_g.setdefault(va, {})[pred] = vb
                continue
            if vac:
                v = va if va is not None else vb
                if va is not None and vb is not None:
                    # two different facts about visited elements
                    v = ph
                    g = self.phi_g.setdefault(v, {})
                    g[pred] = vb
                    g.setdefault("x", va)
            else:
                if va is None:
                    va = self._rd_default(a, root, path)
                if vb is None:
                    vb = self._rd_default(b, root, path)
                if va is None and vb is None:
                    continue
                if va is None or vb is None:
                    v = va if va is not None else vb
                elif va == vb:
                    v = va
                elif is_t(va, "undef"):
                    v = vb
                elif is_t(vb, "undef"):
                    v = va
                elif is_t(va, "pending") or is_t(va, "pendingarg"):
                    v = vb
                elif is_t(vb, "pending") or is_t(vb, "pendingarg"):
                    v = va
                elif is_t(va, "may") and (vb in (va[1], va[2])):
                    v = va
                else:
                    v = ph
                    g = self.phi_g.setdefault(v, {})
                    if va != v:
                        for p in self.seenpred.get(bb, ()):
                            if p != pred:
                                x = va
                                if is_t(va, "phi") and va[1] == bb and a.get(k) is None and (p, bb) in self.lastout:
                                    # what this way in says about the place, not what the join makes of a larger one
                                    x = self._rd_default(self.lastout[(p, bb)], root, path) or va
                                g.setdefault(p, x)
                    g[pred] = vb
                    if vb == v:
                        g.pop(pred, None)
                    self.phi_ops.setdefault(v, set())
            if a.get(k) != v:
                if new is None:
                    new = dict(a)
                new[k] = v
                idx = new.get(("#", root), frozenset())
                if path not in idx:
                    new[("#", root)] = idx | {path}
        self.seenpred.setdefault(bb, set()).add(pred)
        if new is None:
            return a, False
        return new, True

    def _mentions(self, t, x):
        st = [t]
        while st:
            y = st.pop()
            if y == x:
                return True
            if isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, tuple))
        return False

    def _rd_default(self, st, root, path):
        if isinstance(root, int):
            idx = st.get(("#", root))
            if not idx and not (1 <= root <= self.b.argc):
                return None
        return self.rd(st, root, path)

    def _run(self):
        for rnd in range(12):
            self._fix()
            # counters and closure results discovered in this round
            nr = self._closure_rets()
            nc = self._find_counters()
            ns = self._find_seeds(nc)
            # what an enclosing loop turned out to change was not known while the loops inside it were looked at
            new = {h for h, _ in set(nc) - set(self.counters)} | {h for h in ns if ns[h] - self.seeds.get(h, set())}
            ns = {h: ks for h, ks in ns.items() if not PRUNE or not any(h != o and h in self.loops[o] for o in new)}
            if nr == self.cl_ret and nc == self.counters and ns == self.seeds:
                break
            self.cl_ret, self.counters, self.seeds = nr, nc, ns
        self._record()

    def _untouched(self, h, k):
        """the variable is written nowhere in the loop, and nothing borrows it"""
        if len(k) != 2 or not isinstance(k[0], int) or k[1]:
            return False
        if self._writes is None:
            self._writes = {}
            for bb, blk in enumerate(self.b.blocks):
                for s in blk[0]:
                    if s[0] == "=":
                        self._writes.setdefault(s[1][0], set()).add(bb)
                        if isinstance(s[2], (list, tuple)) and s[2] and s[2][0] in ("ref", "raw"):
                            self._writes.setdefault(s[2][-1][0], set()).add(-1)
                    else:
                        for x in s[1:]:
                            if isinstance(x, (list, tuple)) and x and isinstance(x[0], int):
                                self._writes.setdefault(x[0], set()).add(bb)
                t = blk[1]
                if t[0] == "call" and isinstance(t[3], (list, tuple)):
                    self._writes.setdefault(t[3][0], set()).add(bb)
                elif t[0] == "asm":
                    return False
        w = self._writes.get(k[0], set())
        return -1 not in w and not (w & set(self.loops[h]))

    def _find_seeds(self, counters):
        out = {}
        for ph in self.phi_g:
            h, k = ph[1], ph[2]
            if PRUNE and h in self.loops and self._untouched(h, k):
                continue
            if h in self.loops and len(k) == 2 and k[0] != "rd" and (h, k) not in counters and not self._mentions(k[1], ("v", h)) and not (isinstance(k[0], tuple) and self._mentions(k[0], ("v", h))):
                out.setdefault(h, set()).add(k)
        for h, ks in self.seeds.items():
            out.setdefault(h, set()).update(k for k in ks if (h, k) not in counters)
        return out

    def _seed(self, bb, pred, e):
        ks = self.seeds.get(bb)
        st = dict(e)
        if not ks or pred in self.loops[bb]:
            return st
        for k in sorted(ks, key=sk):
            v = e.get(k)
            if v is None:
                v = self._rd_default(e, k[0], k[1])
            if v is None:
                continue
            ph = self.mkphi(bb, k)
            if v == ph:
                continue
            self.phi_g.setdefault(ph, {})[pred] = v
            st[k] = ph
            idx = st.get(("#", k[0]), frozenset())
            if k[1] not in idx:
                st[("#", k[0])] = idx | {k[1]}
        return st

    def _fix(self):
        import heapq
        self.calls_tmp = {}
        self.bounds, self.asm, self.drops = {}, {}, {}
        self.exit_state = None
        self.phi_g = {}
        self.phi_ops = {}
        self.phi_ids = {}
        self.seenpred = {}
        self.exts = {}
        order = self.b.rpo()
        pos = {b: i for i, b in enumerate(order)}
        self.order = order
        self.instate = {0: {}}
        self.lastout = {}
        heap, inheap, visits = [0], {0}, {}
        self.truncated = False
        npred = {}
        for x, blk in enumerate(self.b.blocks):
            if x in pos:
                for y in set(succs(blk[1])):
                    npred.setdefault(y, set()).add(x)
        while heap:
            i = heapq.heappop(heap)
            bb = order[i]
            inheap.discard(i)
            visits[bb] = visits.get(bb, 0) + 1
            if visits[bb] > self.max_iter:
                self.truncated = True
                continue
            st = dict(self.instate[bb])
            self._apply_counters(bb, st)
            outs = self._transfer(bb, st)
            for s in outs:
                e = self._edge(st, bb, s)
                self.lastout[(bb, s)] = e
                if s not in self.instate:
                    self.instate[s] = self._seed(s, bb, e)
                    self.seenpred.setdefault(s, set()).add(bb)
                    ch = True
                elif len(npred.get(s, ())) == 1 and s not in self.loops:
                    # only one way in: its latest state, not an accumulation of earlier ones
                    ch = self.instate[s] != e
                    self.instate[s] = dict(e)
                else:
                    self.instate[s], ch = self._join2(s, bb, self.instate[s], e)
                if ch and pos[s] not in inheap:
                    heapq.heappush(heap, pos[s])
                    inheap.add(pos[s])

    def _apply_counters(self, bb, st):
        for (h, k), (init, kind, step) in self.counters.items():
            if h == bb:
                n = self.binop("Mul", ("int", step) if isinstance(step, int) else step, ("lv", h))
                t = self.binop("Shl", init, n) if kind == "*" else self.binop("Add", init, n)
                self.wr(st, k[0], k[1], t)

    def _find_counters(self):
        out = dict(self.counters)
        for ph, g in self.phi_g.items():
            h, k = ph[1], ph[2]
            if h not in self.loops or len(k) != 2 or not isinstance(k[0], int):
                continue
            init, steps, ok = None, set(), True
            ty = self.b.locals[k[0]] if k[0] < len(self.b.locals) else None
            intty = ty is not None and ty.s in ("usize", "isize", "u32", "i32", "u64", "i64", "u8", "u16")
            for p, v in g.items():
                if p in self.loops[h] and p != "x":
                    st = None
                    if is_t(v, "bin") and v[1] in ("Add", "Sub", "Mul", "Shl") and not k[1]:
                        x, y = v[2], v[3]
                        if v[1] in ("Add", "Mul") and self.same_phi(y, ph):
                            x, y = y, x
                        if self.same_phi(x, ph):
                            if v[1] in ("Add", "Sub") and is_t(y, "int"):
                                st = ("+", y[1] if v[1] == "Add" else -y[1])
                            elif v[1] == "Add" and intty and self.invariant(y, h):
                                st = ("+", y)
                            elif v[1] == "Mul" and intty and is_t(y, "int") and y[1] > 1 and y[1] & (y[1] - 1) == 0:
                                st = ("*", y[1].bit_length() - 1)
                            elif v[1] == "Shl" and intty and is_t(y, "int"):
                                st = ("*", y[1])
                    elif is_t(v, "bin") and v[1] == "Add" and (self.same_phi(v[2], ph) and is_t(v[3], "int") or self.same_phi(v[3], ph) and is_t(v[2], "int")):
                        st = ("+", v[3][1] if self.same_phi(v[2], ph) else v[2][1])
                    if st is None:
                        ok = False
                        break
                    steps.add(st)
                else:
                    if init is not None and init != v:
                        ok = False
                    init = v
            if ok and init is not None and len(steps) == 1:
                out[(h, k)] = (init,) + steps.pop()
        return out

    def invariant(self, t, h):
        """no part of t can change from one iteration of loop h to the next"""
        w = [t]
        n = 0
        while w:
            x = w.pop()
            n += 1
            if n > 400:
                return False
            if not isinstance(x, tuple) or not x:
                continue
            if len(x) == 2 and x[0] in ("lv", "v", "q", "brk") and (x[1] == h or isinstance(x[1], int) and x[1] in self.loops.get(h, ())):
                return False
            if x[0] in ("phi", "nextv", "call", "rnd", "op", "scratch", "undef", "pending", "facc"):
                return False
            w.extend(y for y in x if isinstance(y, tuple))
        return True

    def same_phi(self, x, ph):
        """x is the loop phi ph as seen one iteration earlier"""
        if not is_t(x, "phi") or x[1] != ph[1] or x[2] != ph[2]:
            return False
        h = ph[1]
        for (a, v), (_, w) in zip(x[3], ph[3]):
            if v != w and not (a == ("lv", h) and v in (("v", h), ("lv", h)) ):
                return False
        return True

    def _closure_rets(self):
        out = {}
        for ext, rets in self.b.closure_rets.items():
            for ckey, retl, hub in rets:
                vals = []
                for p in self.predsl[hub]:
                    if p == ext or p not in self.instate:
                        continue
                    st = dict(self.instate[p])
                    self._apply_counters(p, st)
                    self._transfer(p, st)
                    v = st.get((retl, ()))
                    if v is None and st.get(("#", retl)):
                        v = self.rd(st, retl, ())
                    elif v is not None:
                        v = self.rd(st, retl, ())
                    if v is not None and v not in vals:
                        vals.append(v)
                if len(vals) == 1:
                    out[ext] = vals[0]
                elif len(vals) > 1:
                    v = vals[0]
                    for x in vals[1:]:
                        v = ("may", v, x)
                    out[ext] = v
        return out

    def _record(self):
        self.ret_terms = {}
        for bb in self.order:
            if bb in self.instate:
                st = dict(self.instate[bb])
                self._apply_counters(bb, st)
                outs = self._transfer(bb, st, record=True)
                for s in outs:
                    self.live_edges.add((bb, s))
                if self.b.blocks[bb][1][0] == "ret":
                    self.exit_state = st
        self.reached = set(self.instate)
        self.while_exts()

    # ------------------------------------------------------------ linear index forms
    def lin(self, t):
        """linear form {monomial(tuple of atoms): coef} of an index term"""
        if is_t(t, "int"):
            return {(): t[1]} if t[1] else {(): 0}
        if is_t(t, "bin") and t[1] in ("Add", "Sub", "Mul"):
            a, b = self.lin(t[2]), self.lin(t[3])
            if a is None or b is None:
                return None
            r = {}
            if t[1] == "Mul":
                for ma, ca in a.items():
                    for mb, cb in b.items():
                        m = tuple(sorted(ma + mb, key=sk))
                        r[m] = r.get(m, 0) + ca * cb
            else:
                s = 1 if t[1] == "Add" else -1
                for m, c in a.items():
                    r[m] = r.get(m, 0) + c
                for m, c in b.items():
                    r[m] = r.get(m, 0) + s * c
            r = {m: c for m, c in r.items() if c}
            return r or {(): 0}
        return {(t,): 1}


# -------------------------------------------------------------------- canonical rendering
CTX = {"a": r"(dim\.0|size\.0)$", "]": r"(polynomial_degree\.0)$", "b": r"(polynomial_degree\.0)$"}


def is_len(s):
    """a length, or a minimum of lengths"""
    if s.startswith("len(") and _closes(s, 3):
        return True
    if s.startswith("min(") and _closes(s, 3):
        d, cur, parts = 0, "", []
        for ch in s[4:-1]:
            if ch in ",;" and d == 0:
                parts.append(cur.strip())
                cur = ""
                continue
            d += ch in "([{"
            d -= ch in ")]}"
            cur += ch
        parts.append(cur.strip())
        return all(is_len(x) for x in parts)
    return False


def _closes(s, i):
    """the bracket at i is closed by the last character"""
    d = 0
    for n in range(i, len(s)):
        d += s[n] in "([{"
        d -= s[n] in ")]}"
        if d == 0:
            return n == len(s) - 1
    return False


def natural(hi, var, text):
    """is the upper end the length of what the variable indexes?"""
    if hi is None or is_len(hi):
        return True
    if not re.fullmatch(r"[A-Za-z_][A-Za-z_0-9.]*", hi):
        return False
    for m in re.finditer(r"(\]|[A-Za-z_0-9]+)\[%s\]" % re.escape(var), text):
        w = CTX.get(m.group(1))
        if w and not re.search(w, hi) and "." in hi:
            return False
    return True


def span_str(lo, hi, var, text):
    """range of an index variable, empty when it is the natural one"""
    if natural(hi, var, text):
        hi = ""
    if lo == "0" and not hi:
        return ""
    return "%s..%s" % (lo, hi)


def mask(s):
    return re.sub(r"#\d+", "#", s)


CONT = ("cont",)


BOT = [(1, (("bot",),))]


class Render:
    """canonical string of a formula"""

    def __init__(self, alg, argnames, rnds=None):
        self.alg = alg
        self.argn = argnames
        self.vars = {}
        self.rnds = {} if rnds is None else rnds
        self.busy = []
        self.altd = 0
        self.depth = 0
        self.nvar = 0
        self.known = []
        self.problems = []
        self.ext_used = {}
        self.brks = {}
        self.accd = 0
        self.alive = None

    def var(self, t):
        """name of a bound index variable"""
        if t not in self.vars:
            self.nvar += 1
            n = self.nvar - 1
            self.vars[t] = "IJKLMNOPQ"[n] if n < 9 else "I%d" % n
        return self.vars[t]

    # ---- polynomial normal form: dict monomial(tuple of sorted factor keys) -> coef
    def nf(self, t):
        """normal form: list of (coef, factors) where factors are atoms (terms or ("SUM",var,nf))"""
        k = t[0] if isinstance(t, tuple) and t else None
        if k == "int":
            return [(t[1], ())] if t[1] else []
        if k == "bin" and t[1] == "Shr" and is_t(t[3], "int") and 0 < t[3][1] < 64:
            return self.nf(("bin", "Div", t[2], ("int", 1 << t[3][1])))
        if k == "discr" and len(t) == 2 and isinstance(t[1], tuple) and t[1] and t[1][0] in ("phi", "sel", "prj"):
            return self.discr_nf(self.nf(t[1]), t)
        if k in ("add", "sub") or k == "bin" and t[1] in ("Add", "Sub"):
            a, b = (t[1], t[2]) if k != "bin" else (t[2], t[3])
            sgn = 1 if (k == "add" or k == "bin" and t[1] == "Add") else -1
            return self.comb(self.nf(a), [(sgn * c, f) for c, f in self.nf(b)])
        if k == "neg" or k == "un" and t[1] == "Neg":
            x = t[1] if k == "neg" else t[2]
            return [(-c, f) for c, f in self.nf(x)]
        if k == "mul" or k == "bin" and t[1] == "Mul":
            a, b = (t[1], t[2]) if k == "mul" else (t[2], t[3])
            na, nb = self.nf(a), self.nf(b)
            if len(na) * len(nb) > 64:
                return [(1, (("opq", t),))]
            out = []
            for c1, f1 in na:
                for c2, f2 in nb:
                    out.append(self.pow2(c1 * c2, f1 + f2))
            return self.comb(out, [])
        if k == "bin" and t[1] == "Shl":
            e = self.nf(t[3])
            return [self.pow2(c, f + (("P2", self.key(e)),)) for c, f in self.nf(t[2])]
        if k == "bin" and t[1] == "BitAnd":
            # x & (2^k - 1) is x mod 2^k
            for x, m in ((t[2], t[3]), (t[3], t[2])):
                n = self.nf(m)
                if len(n) == 1 and not n[0][1] and n[0][0] > 0 and n[0][0] & (n[0][0] + 1) == 0:
                    return [(1, (("bin", "Rem", x, ("int", n[0][0] + 1)),))]
                if len(n) == 2 and (-1, ()) in n:
                    c, f = [y for y in n if y != (-1, ())][0]
                    if c == 1 and len(f) == 1 and is_t(f[0], "P2"):
                        return [(1, (("bin", "Rem", x, ("nfk", self.key([(c, f)]))),))]
        if k == "nfk":
            return list(t[1][1])
        if k == "cast" and t[1] == "IntToInt" and t[2] in ("u32", "i32", "u16", "u8"):
            # truncation is a ring homomorphism
            n = self.nf(t[3])
            if len(n) != 1 or n[0][0] != 1 or len(n[0][1]) > 1:
                return self.comb([(c, tuple(sorted((("cast", t[1], t[2], x if x[0] not in ("SUM", "PSUM", "PM", "ITE", "ALT", "P2", "rec", "self", "opq", "selfx") else ("nfk", self.key([(1, (x,))]))) for x in f), key=sk))) for c, f in n], [])
        if k == "sum":
            return [(c, (("SUM", t[1], f),)) for c, f in self.nf(t[2])]
        if k == "sel":
            return self.ite(t[1], self.nf(t[2]), self.nf(t[3]))
        if k == "phi":
            return self.phi_nf(t)
        if k == "fold":
            return self.fold_nf(t)
        if k == "pmul":
            # bilinear: expand both lambdas
            na, nb = self.nf(t[1]), self.nf(t[2])
            if na == [] or nb == []:
                return []
            if len(na) * len(nb) <= 36:
                return self.comb([(c1 * c2, (("PM",) + tuple(sorted((f1, f2), key=sk)) + (t[3],),)) for c1, f1 in na for c2, f2 in nb], [])
        if k == "prj":
            return self.prj_nf(t)
        if k == "exq":
            c, neg = self.exq(t)
            return self.ite(c, [] if neg else [(1, ())], [(1, ())] if neg else [])
        if k == "nfb":
            return list(t[1][1])
        return [(1, (t,))]

    def pow2(self, c, f):
        """product with all its powers of two merged"""
        ps = [x for x in f if is_t(x, "P2")]
        if not ps:
            return c, tuple(sorted(f, key=sk))
        e = list(ps[0][1][1])
        for x in ps[1:]:
            e = self.comb(e, list(x[1][1]))
        n = 0
        while c and c % 2 == 0:
            c //= 2
            n += 1
        if n:
            e = self.comb(e, [(n, ())])
        rest = tuple(x for x in f if not is_t(x, "P2"))
        if all(not g for _, g in e):
            n = sum(x for x, _ in e)
            if 0 <= n < 128:
                return c << n, tuple(sorted(rest, key=sk))
        return c, tuple(sorted(rest + (("P2", self.key(e)),), key=sk))

    def comb(self, a, b):
        d = {}
        order = []
        for c, f in list(a) + list(b):
            if f not in d:
                d[f] = 0
                order.append(f)
            d[f] += c
        return [(d[f], f) for f in order if d[f]]

    def same(self, x, t):
        """x denotes the loop value t one iteration earlier (or t itself)"""
        if x == t:
            return True
        if is_t(x, "prj") and is_t(t, "prj"):
            return x[2] == t[2] and self.same(x[1], t[1])
        if is_t(x, "phi") and is_t(t, "phi"):
            if x[1] != t[1]:
                return False
            h = t[1]
            if x[2] != t[2]:
                # one place covered by two keys that differ in the name of the element variable
                if len(x[2]) != 2 or len(t[2]) != 2 or x[2][0] != t[2][0] or [type(e) for e in x[2][1]] != [type(e) for e in t[2][1]]:
                    return False
                mx, mt = dict(e for e in x[3] if is_t(e[0], "q")), dict(e for e in t[3] if is_t(e[0], "q"))
                if self.alg.subst(x[2][1], mx) != self.alg.subst(t[2][1], mt):
                    return False
                ex, et = dict(x[3]), dict(t[3])
                return all(ex.get(a) == et.get(a) or a == ("lv", h) for a in set(ex) | set(et) if not is_t(a, "q"))
            for (a, v), (_, w) in zip(x[3], t[3]):
                if v != w and not (a == ("lv", h) and is_t(v, ("v")) or a == ("lv", h) and is_t(v, "lv")):
                    return False
            return True
        return False

    def busy_self(self, t):
        return any(self.same(t, b) for b in self.busy)

    def busy_again(self, t):
        """the merge point is already being expanded with other index values"""
        if len(self.busy) > 60:
            return True
        n = 0
        for b in self.busy:
            while is_t(b, "prj"):
                b = b[1]
            if is_t(b, "phi") and b[1] == t[1] and b[2] == t[2]:
                n += 1
        return n >= (1 if t[1] in self.alg.loops else 2)

    def phi_nf(self, t):
        """loop accumulators become sums; branch phis become alternatives"""
        alg = self.alg
        if self.busy_self(t):
            return [(1, (("self", t),))]
        if self.busy_again(t):
            return [(1, (("selfx", t),))]
        g = alg.gops(t)
        if not g:
            return [(1, (t,))]
        return self.solve(t, t, g)

    def solve(self, t, ph, g):
        alg = self.alg
        h = ph[1]
        if h in alg.loops and alg._mentions(ph[2], ("v", h)):
            # facts about the elements visited so far
            self.busy.append(t)
            try:
                alts = []
                back = []
                for p, v in g.items():
                    n = self.nf(v)
                    if p in alg.loops[h]:
                        back.append((p, n))
                    if len(n) == 1 and n[0][0] == 1 and len(n[0][1]) == 1 and self.isself(n[0][1][0], t):
                        continue
                    k = self.key(n)
                    if k not in alts:
                        alts.append(k)
                if len(alts) == len({sk(self.key(n)) for _, n in back}) > 1 and {sk(a) for a in alts} == {sk(self.key(n)) for _, n in back}:
                    # every pass writes the element, with a value that depends on the way it went round
                    m = {a: x for a, x in ph[3] if a != x}
                    m[("lv", h)] = m.get(("v", h), ("v", h))
                    tree = self.gate_tree(h, back, m, head=True)
                    if tree is not None:
                        return tree
            finally:
                self.busy.pop()
            if len(alts) == 1:
                return list(alts[0][1])
            return [(1, (("ALT",) + tuple(sorted(alts, key=sk)),))]
        if h not in alg.loops:
            self.busy.append(t)
            try:
                return self.branch_nf(ph, g)
            finally:
                self.busy.pop()
        env = dict(ph[3])
        cur = env.get(("lv", h), ("lv", h))
        self.busy.append(t)
        try:
            ini = []
            for p, v in g.items():
                if p == "x" or p not in alg.loops[h]:
                    n = self.nf(v)
                    if n not in ini:
                        ini.append(n)
            # steps: operands with this loop's own variable left symbolic
            incs = []
            ident = True
            base = alg.gops(ph)
            for p, v in g.items():
                if p == "x" or p not in alg.loops[h]:
                    continue
                n = self.nf(v)
                sf = [(c, f) for c, f in n if any(self.isself(x, t) for x in f)]
                rest = [(c, f) for c, f in n if not any(self.isself(x, t) for x in f)]
                if len(sf) == 1 and sf[0][0] == 1 and len(sf[0][1]) == 1 and not self.has_self(rest, t):
                    if rest not in incs:
                        incs.append(rest)
                elif not sf and not self.has_self(n, t) and alg.runs_once(h) and not alg._mentions(tuple(f for c, f in n), ("lv", h)):
                    return n
                else:
                    if len(ini) == 1 and len(g) == 2:
                        r = self.latch(n, t, ini[0], h)
                        if r is not None:
                            return r
                    if len(ini) == 1 and alg.once_written(ph[2], h):
                        r = self.subst_self(n, t, ini[0])
                        if r is not None and not alg._mentions(tuple(f for c, f in r), ("lv", h)):
                            return r
                    return [(1, (("rec", t, (self.key(n),), tuple(map(self.key, ini))),))]
            if len(ini) != 1 or len(incs) > 1:
                return [(1, (("rec", t, tuple(map(self.key, incs)), tuple(map(self.key, ini))),))]
            if not incs or not incs[0]:
                return ini[0]
            if alg.once_written(ph[2], h) and not alg._mentions(tuple(f for c, f in incs[0]), ("lv", h)):
                return self.comb(ini[0], incs[0])
            tag = "SUM" if is_t(cur, "brk") else "PSUM"
            return self.comb(ini[0], [(c, ((tag, ("lv", h), f),)) for c, f in incs[0]])
        finally:
            self.busy.pop()

    def latch(self, n, t, init, h):
        """a value that stays as it was until some pass sets it to the same thing for good"""
        if len(n) != 1 or n[0][0] != 1 or len(n[0][1]) != 1 or not is_t(n[0][1][0], "ITE"):
            return None
        _, c, a, b = n[0][1][0]
        for keep, put, cn in ((a, b, ("un", "Not", c)), (b, a, c)):
            k, v = list(keep[1]), list(put[1])
            if len(k) == 1 and k[0][0] == 1 and len(k[0][1]) == 1 and self.isself(k[0][1][0], t):
                fs = tuple(f for _, f in v)
                if self.has_self(v, t) or self.alg._mentions(fs, ("lv", h)) or self.alg._mentions(fs, ("v", h)) or self.alg._mentions(fs, ("brk", h)):
                    return None
                if self.has_self([(1, (c,))], t) or self.alg._mentions(c, ("phi", h)) or not self.flat(c):
                    return None
                return self.ite(self.exists(("lv", h), self.ite(cn, [(1, ())], [])), v, init)
        return None

    def flat(self, c):
        """no merged value inside"""
        st = [c]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                if x and x[0] in ("phi", "selfx", "self", "rec"):
                    return False
                st.extend(y for y in x if isinstance(y, tuple))
        return True

    def subst_self(self, n, t, init):
        """n with its own earlier value replaced by init (None when it occurs below the top level)"""
        out = []
        for c, f in n:
            mine = [x for x in f if self.isself(x, t)]
            rest = tuple(x for x in f if not self.isself(x, t))
            if len(mine) > 1 or self.has_self([(c, rest)], t):
                return None
            if not mine:
                out = self.comb(out, [(c, rest)])
            else:
                out = self.comb(out, [(c * ci, tuple(sorted(rest + fi, key=sk))) for ci, fi in init])
        return out

    def isself(self, x, t):
        return is_t(x, "self") and self.same(x[1], t)

    def branch_nf(self, t, g, proj=None):
        alts = []
        for p, v in sorted(g.items(), key=lambda x: str(x[0])):
            n = self.nf(v)
            alts.append((p, n))
        if all(a[1] == alts[0][1] for a in alts):
            return alts[0][1]
        m = {a: x for a, x in t[3] if a != x}
        gate = self.gate(t[1], alts)
        if gate is not None:
            return self.ite(self.csub(gate[0], m), *gate[1:])
        tree = self.gate_tree(t[1], alts, m)
        if tree is not None:
            return tree
        uniq = []
        for _, n in alts:
            k = self.key(n)
            if k not in uniq:
                uniq.append(k)
        return [(1, (("ALT",) + tuple(sorted(uniq, key=sk)),))]

    def csub(self, c, m):
        """a branch condition at other index values"""
        if not m:
            return c
        if is_t(c, "sw"):
            return ("sw", self.alg.subst(c[1], m), c[2])
        return self.alg.subst(c, m)

    def ite(self, cond, th, el):
        neg = False
        x = cond
        while is_t(x, "un") and x[1] == "Not":
            x, neg = x[2], not neg
        if is_t(x, "phi") or is_t(x, "sel") or is_t(x, "nfb") or is_t(x, "prj") or is_t(x, "discr") and len(x) == 2:
            n = self.nf(x)
            if neg:
                th, el = el, th
            if not n:
                return el
            if n == [(1, ())]:
                return th
            if len(n) == 1 and n[0][0] == 1 and len(n[0][1]) == 1 and is_t(n[0][1][0], "ITE"):
                y = n[0][1][0]
                return self.ite(y[1], self.ite(("nfb", y[2]), th, el), self.ite(("nfb", y[3]), th, el))
            cond = n[0][1][0] if len(n) == 1 and n[0][0] == 1 and len(n[0][1]) == 1 else ("nfk", self.key(n))
        if th == BOT:
            return el
        if el == BOT:
            return th
        if is_t(cond, "int"):
            return th if cond[1] else el
        cond, th, el = self.norm_cond(cond, th, el)
        th, el = self.assume(th, cond, True), self.assume(el, cond, False)
        if self.key(th) == self.key(el):
            return th
        g = self.one_field(cond, th, el)
        if g is not None:
            return g
        common = [x for x in th if x in el]
        th, el = [x for x in th if x not in common], [x for x in el if x not in common]
        return self.comb(common, [(1, (("ITE", cond, self.key(th), self.key(el)),))])

    def one_field(self, cond, th, el):
        """two values of one variant that differ in one field: the choice is that field's"""
        if len(th) != 1 or len(el) != 1 or th[0][0] != 1 or el[0][0] != 1 or len(th[0][1]) != 1 or len(el[0][1]) != 1:
            return None
        a, b = th[0][1][0], el[0][1][0]
        if not is_t(a, "agg") or not is_t(b, "agg") or a[1] != b[1] or a[2] != b[2] or not isinstance(a[1], tuple) or a[1][0] != "adt":
            return None
        d = [i for i in range(len(a[3])) if a[3][i] != b[3][i]]
        if len(d) != 1:
            return None
        i = d[0]
        v = ("nfb", self.key(self.ite(cond, self.nf(a[3][i]), self.nf(b[3][i]))))
        return [(1, (("agg", a[1], a[2], a[3][:i] + (v,) + a[3][i + 1:]),))]

    def discr_nf(self, n, t):
        """which variant a merged value is, alternative by alternative"""
        if len(n) == 1 and n[0][0] == 1 and len(n[0][1]) == 1:
            x = n[0][1][0]
            if x == ("bot",):
                return BOT
            if is_t(x, "agg"):
                d = self.alg.discr(x)
                if is_t(d, "int"):
                    return [(d[1], ())] if d[1] else []
            if is_t(x, "ITE"):
                a, b = list(x[2][1]), list(x[3][1])
                da, db = self.discr_nf(a, None), self.discr_nf(b, None)
                if da is not None and db is not None:
                    return self.ite(x[1], da, db)
            elif t is None and not is_t(x, "ALT") and not is_t(x, "SUM"):
                return [(1, (self.alg.discr(x),))]
        return None if t is None else [(1, (t,))]

    def norm_index(self, c):
        """comparison against a loop index: index < bound; (condition, negated?)"""
        L = self.alg.lin(("bin", "Sub", c[2], c[3]))
        if L is None:
            return c, False
        vs = [m for m in L if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] in ("q", "lv", "v") and L[m] in (1, -1)]
        if not vs:
            return c, False
        v = min(vs, key=lambda m: (len(self.alg.inloops.get(m[0][1], ())) * -1 if isinstance(m[0][1], int) else 0, sk(m)))
        r = {m: x for m, x in L.items() if m != v}
        if L[v] == 1:
            return ("bin", "Lt", v[0], self.alg.unlin({m: -x for m, x in r.items()})), False
        r = dict(r)
        r[()] = r.get((), 0) + 1
        return ("bin", "Lt", v[0], self.alg.unlin({m: x for m, x in r.items() if x})), True

    def norm_cond(self, c, th, el):
        c, th, el = self.norm_cond1(c, th, el)
        if is_t(c, "bin") and c[1] == "Lt":
            c, neg = self.norm_index(c)
            if neg:
                th, el = el, th
        return c, th, el

    def norm_cond1(self, c, th, el):
        while True:
            if is_t(c, "exq"):
                c, neg = self.exq(c)
                if neg:
                    th, el = el, th
                continue
            if is_t(c, "un") and c[1] == "Not":
                c, th, el = c[2], el, th
                continue
            if is_t(c, "call") and c[1].rsplit("::", 1)[-1] in CMPS and len(c[3]) == 2:
                c, neg = cmp_call(c)
                if neg:
                    th, el = el, th
                return c, th, el
            if is_t(c, "bin") and c[1] in ("Ne", "Le", "Ge", "Gt"):
                o, a, b = c[1:]
                if o == "Ne":
                    c, th, el = ("bin", "Eq", a, b), el, th
                elif o == "Le":
                    c, th, el = ("bin", "Lt", b, a), el, th
                elif o == "Ge":
                    c, th, el = ("bin", "Lt", a, b), el, th
                else:
                    c = ("bin", "Lt", b, a)
                continue
            return c, th, el

    def decides(self, c, pos, d):
        """what is known of condition d once c is pos (None: nothing)"""
        if c == d:
            return pos
        if pos and is_t(c, "sw") and is_t(d, "sw") and c[1] == d[1] and isinstance(c[2], tuple) and isinstance(d[2], tuple):
            if not set(c[2]) & set(d[2]):
                return False
            if set(c[2]) <= set(d[2]):
                return True
        if pos and is_t(c, "bin") and is_t(d, "bin") and c[1] == d[1] == "Eq" and c[2] == d[2] and is_t(c[3], "int") and is_t(d[3], "int"):
            return False
        if is_t(c, "sw") and is_t(d, "bin") and d[1] == "Eq" and c[1] == d[2] and is_t(d[3], "int") and d[3][1] not in c[2] and pos:
            return False
        if pos and is_t(c, "bin") and is_t(d, "sw") and c[1] == "Eq" and c[2] == d[1] and is_t(c[3], "int"):
            return c[3][1] in d[2]
        if not pos and is_t(c, "sw") and is_t(d, "bin") and d[1] == "Eq" and c[1] == d[2] and is_t(d[3], "int") and d[3][1] in c[2]:
            return False
        if not pos and is_t(c, "sw") and is_t(d, "sw") and c[1] == d[1] and isinstance(c[2], tuple) and isinstance(d[2], tuple) and set(d[2]) <= set(c[2]):
            return False
        return None

    def assume(self, n, cond, pos):
        """simplify nested alternatives on a condition already decided"""
        if not any(is_t(x, "ITE") for _, f in n for x in f):
            return n
        out = []
        for c, f in n:
            prod = [(c, ())]
            for x in f:
                if is_t(x, "ITE"):
                    dec = self.decides(cond, pos, x[1])
                    if dec is not None:
                        alt = self.assume(list((x[2] if dec else x[3])[1]), cond, pos)
                    else:
                        a, b = self.assume(list(x[2][1]), cond, pos), self.assume(list(x[3][1]), cond, pos)
                        alt = a if self.key(a) == self.key(b) else [(1, (("ITE", x[1], self.key(a), self.key(b)),))]
                else:
                    alt = [(1, (x,))]
                prod = [(c1 * c2, tuple(sorted(f1 + f2, key=sk))) for c1, f1 in prod for c2, f2 in alt]
            out += prod
        return self.comb(out, [])

    def boolof(self, n):
        """the condition a truth value stands for"""
        if not n:
            return ("int", 0)
        if n == [(1, ())]:
            return ("int", 1)
        if len(n) == 1 and n[0][0] == 1 and len(n[0][1]) == 1:
            x = n[0][1][0]
            if is_t(x, "ITE") and list(x[2][1]) == [(1, ())] and not x[3][1]:
                return x[1]
            if is_t(x, "ITE") and not x[2][1] and list(x[3][1]) == [(1, ())]:
                return ("un", "Not", x[1])
            if not is_t(x, "ITE") and not is_t(x, "ALT"):
                return x
        return ("nfb", self.key(n))

    def exists(self, v, n):
        b = self.boolof(n)
        if is_t(b, "int"):
            return b
        b = self.boolof(self.ite(b, [(1, ())], []))
        return ("exists", v, b)

    def exq(self, t):
        """(condition, negated) of an any/all over a sequence"""
        b = self.boolof(self.nf(t[2]))
        if t[3]:
            b = ("un", "Not", b)
        return self.exists(t[1], self.ite(b, [(1, ())], [])), t[3]

    def gate_tree(self, join, alts, m=None, head=False):
        """decision tree over the acyclic region between the join and its dominator (head: between the head of a loop and its
        back edges)"""
        alg = self.alg
        dom = alg.dom
        vals = {p: n for p, n in alts}
        if "x" in vals:
            return None
        d = join
        while not head:
            d = dom.idom[d]
            if d is None:
                return None
            if d < dom.n:
                break
        blocks = alg.b.blocks
        mine = set(h for h in alg.inloops.get(join, ()))
        canreach = set()
        st = [join]
        while st:
            x = st.pop()
            for p in alg.predsl[x]:
                if p not in canreach and p != join and not (head and p not in alg.loops[join]):
                    canreach.add(p)
                    if p != d:
                        st.append(p)
        conds = alg.conds_tmp()
        left = [4000]
        FAIL = object()

        def tree(start, edge, mine):
            """value of the region entered at `start`; edge(b, s) decides an edge: a value, None (never gets there) or CONT"""
            memo, busy = {}, set()

            def step(b, s):
                r = edge(b, s)
                return D(s) if r is CONT else r

            def D(b):
                if b in memo:
                    return memo[b]
                if b in busy or left[0] <= 0:
                    return FAIL
                left[0] -= 1
                busy.add(b)
                r = D1(b)
                busy.discard(b)
                memo[b] = r
                return r

            def inner(h):
                body = alg.loops[h]
                rs = {}
                for x in sorted(body):
                    for s in sorted(set(succs(blocks[x][1]))):
                        if s not in body:
                            r = step(x, s)
                            if r is FAIL:
                                return FAIL
                            if r is not None:
                                rs[(x, s)] = r
                vals_ = []
                for r in rs.values():
                    if r not in vals_:
                        vals_.append(r)
                if len(vals_) < 2:
                    return vals_[0] if vals_ else None
                # a search: leaves early with one value, runs out with another
                nat = [x for x, _ in rs if all(dom.dominates(x, y) for y, _ in rs)]
                nat = {e: r for e, r in rs.items() if e[0] in nat}
                early = {e: r for e, r in rs.items() if e not in nat}
                if len(nat) != 1 or not early or any(r != list(early.values())[0] for r in early.values()):
                    return FAIL

                def edge2(b, s):
                    if (b, s) in early:
                        return [(1, ())]
                    if s == h:
                        return []
                    if s not in body:
                        return None
                    return CONT
                n = tree(h, edge2, mine | {h})
                if n is FAIL or n is None:
                    return FAIL
                return self.ite(self.exists(("lv", h), n), list(early.values())[0], list(nat.values())[0])

            def D1(b):
                ol = [h for h in alg.inloops.get(b, ()) if h not in mine]
                if ol:
                    h = ol[-1]
                    if b != h:
                        return FAIL
                    return inner(h)
                t = blocks[b][1]
                ss = sorted(set(succs(t)))
                if len(ss) == 1:
                    return step(b, ss[0])
                rs = {s: step(b, s) for s in ss}
                if any(r is FAIL for r in rs.values()):
                    return FAIL
                rs = {s: r for s, r in rs.items() if r is not None}
                if not rs:
                    return None
                l = list(rs.values())
                if all(r == l[0] for r in l):
                    return l[0]
                if t[0] != "switch" or b not in conds:
                    return FAIL
                v = swvals(t)
                items = sorted(rs.items(), key=lambda kv: (kv[0] not in v, v.get(kv[0], ())))
                r = items[-1][1]
                groups = []
                for s, n in items[:-1]:
                    if n == items[-1][1]:
                        continue
                    for g in groups:
                        if g[1] == n:
                            g[0] += v[s]
                            break
                    else:
                        groups.append([v[s], n])
                for vs, n in reversed(groups):
                    r = self.ite(self.csub(alg.swcond(b, conds[b], tuple(sorted(vs))), m), n, r)
                return r
            return D(start)

        def edge1(b, s):
            if s == join:
                return vals.get(b, FAIL)
            if s not in canreach:
                return None
            return CONT
        r = tree(d, edge1, mine)
        return None if r is FAIL else r

    def gate(self, join, alts):
        alg = self.alg
        dom = alg.dom
        d = join
        # nearest dominating switch whose edges separate the predecessors
        x = join
        for _ in range(200):
            nx = dom.idom[x]
            if nx is None or nx == x:
                return None
            x = nx
            if x < dom.n and x in alg.conds_tmp():
                c = alg.conds_tmp()[x]
                sw = alg.b.blocks[x][1]
                groups = {}
                ok = True
                for p, n in alts:
                    e = [s for s in set(succs(sw)) if p != "x" and (dom.edge_dominates((x, s), p) or (p == x and s == join))]
                    if len(e) != 1:
                        ok = False
                        break
                    groups.setdefault(e[0], []).append(n)
                if ok and len(groups) == 2 and all(all(n == l[0] for n in l) for l in groups.values()):
                    v = swvals(sw)
                    items = sorted(groups.items(), key=lambda kv: (kv[0] not in v, v.get(kv[0], ())))
                    return alg.swcond(x, c, v[items[0][0]]), items[0][1][0], items[1][1][0]
                if not ok:
                    continue
        return None

    def prj_nf(self, t):
        """projection of a merged region"""
        path = []
        x = t
        while is_t(x, "prj"):
            path.append(x[2])
            x = x[1]
        path.reverse()
        alg = self.alg
        if not is_t(x, "phi"):
            for e in path:
                x = alg.proj({}, x, e)
            return self.nf(x) if not is_t(x, "prj") else [(1, (x,))]
        if self.busy_self(t):
            return [(1, (("self", t),))]
        if self.busy_again(x):
            v = ("selfx", x)
            for e in path:
                v = ("idx", v, e[1]) if isinstance(e, tuple) and e[0] == "i" else ("fld", v, e)
            return [(1, (v,))]
        g = alg.gops(x)
        if not g:
            return [(1, (t,))]
        ng = {}
        for p, v in g.items():
            for e in path:
                v = alg.proj({}, v, e)
            ng[p] = v
        return self.solve(t, x, ng)

    def fold_nf(self, t):
        _, bb, hub, init, ret = t
        n = self.nf(ret)
        acc = ("facc", bb)
        selfs = [(c, f) for c, f in n if acc in f]
        rest = [(c, f) for c, f in n if acc not in f]
        if len(selfs) == 1 and selfs[0][0] == 1 and selfs[0][1] == (acc,):
            return self.comb(self.nf(init), [(c, (("SUM", ("lv", hub), f),)) for c, f in rest])
        return [(1, (("rec", t),))]

    def has_self(self, n, t):
        st = [x for _, f in n for x in f]
        seen = 0
        while st and seen < 5000:
            x = st.pop()
            seen += 1
            if is_t(x, "self") and self.same(x[1], t):
                return True
            if isinstance(x, tuple):
                st.extend(y for y in x if isinstance(y, tuple))
        return False

    def key(self, n):
        return ("NF", tuple(sorted(n, key=sk)))

    # ---- strings
    def s(self, t):
        n = self.nf(t)
        for c, pos in self.known:
            n = self.assume(n, c, pos)
        return self.nfs(n)

    def under(self, n, c, pos):
        """an alternative, where its condition is known"""
        self.known.append((c, pos))
        try:
            return self.nfs(n)
        finally:
            self.known.pop()

    def binding(self, v):
        """what is known once a name is bound anew (returns what was known before)"""
        old = self.known
        if old:
            self.known = [(c, pos) for c, pos in old if not self.alg._mentions(c, v)]
        return old

    def ite_conds(self, t, out):
        if is_t(t, "ITE"):
            if t[1] not in out:
                out.append(t[1])
            for br in t[2:]:
                for _, f in br[1]:
                    for x in f:
                        self.ite_conds(x, out)
        return out

    def save(self):
        return dict(self.vars), dict(self.rnds), self.nvar, list(self.problems)

    def restore(self, keep):
        self.vars, self.nvar, self.problems = dict(keep[0]), keep[2], list(keep[3])
        self.rnds.clear()
        self.rnds.update(keep[1])

    def wrap(self, n):
        """a normal form used as one factor"""
        if len(n) == 1 and n[0][0] == 1 and len(n[0][1]) == 1:
            return self.fs(n[0][1][0])
        s = self.nfs(n)
        return s if re.fullmatch(r"[A-Za-z_0-9]+", s) else "(%s)" % s

    def order_ite(self, t):
        """nested alternatives in one fixed order of their conditions (a reduced ordered decision tree)"""
        cs = self.ite_conds(t, [])
        if not 2 <= len({c[1] if is_t(c, "sw") else c for c in cs}) <= 6 or len(cs) > 40:
            return None
        keep = self.save()
        ks = {c: mask(self.cond(c) if not is_t(c, "sw") else "match(%s" % self.s(c[1][1] if is_t(c[1], "discr") else c[1])) for c in cs}
        self.restore(keep)
        best = min(cs, key=lambda c: ks[c])
        if ks[best] == ks[t[1]]:
            return None
        n = [(1, (t,))]
        return self.ite(best, self.assume(n, best, True), self.assume(n, best, False))

    def nfs(self, n):
        if not n:
            return "0"
        if any(len(f) == 1 and is_t(f[0], "ITE") for _, f in n):
            m = []
            for c, f in n:
                o = self.order_ite(f[0]) if len(f) == 1 and is_t(f[0], "ITE") else None
                m += [(c, f)] if o is None else [(c * c1, f1) for c1, f1 in o]
            n = self.comb(m, [])
            if not n:
                return "0"
        parts = []
        for c, f in n:
            fs = [self.fs(x) for x in f]
            fs.sort(key=mask)
            body = "*".join(fs)
            if not fs:
                parts.append(str(c))
            elif c == 1:
                parts.append(body)
            elif c == -1:
                parts.append("-" + body)
            else:
                parts.append("%d*%s" % (c, body))
        parts.sort(key=lambda p: (mask(p).lstrip("-"), mask(p)))
        return " + ".join(parts)

    def fs(self, t):
        """string of a factor"""
        k = t[0] if isinstance(t, tuple) and t else None
        if k in ("SUM", "PSUM"):
            v = t[1]
            known = self.binding(v)
            old = self.vars.get(v)
            self.vars[v] = n = "s%d" % self.depth
            self.depth += 1
            al = self.alg
            h = v[1] if v[0] == "lv" else ("sum", v[1])
            sp = al.span(h) if k == "SUM" else None
            rg = ""
            f = t[2]
            if sp is not None:
                al.range_used.add(h)
                lo, cnt = sp
                if lo != ("int", 0):
                    f = al.subst(f, {v: al.binop("Sub", v, lo)})
                inner = self.nfs([(1, f)])
                if cnt is not None:
                    hi = al.binop("Add", lo, cnt)
                    g = al.subst(f, {v: al.binop("Sub", al.binop("Sub", al.binop("Add", lo, hi), ("int", 1)), v)})
                    inner = min(inner, self.nfs([(1, g)]), key=lambda x: (len(x), mask(x)))
                    rg = span_str(self.s(lo), self.s(hi), n, inner)
                elif lo != ("int", 0):
                    rg = span_str(self.s(lo), None, n, inner)
                elif al._mentions(f, ("rev", v)):
                    inner = min(inner, self.nfs([(1, al.subst(f, {v: ("rev", v)}))]), key=lambda x: (len(x), mask(x)))
            else:
                inner = self.nfs([(1, f)])
            self.depth -= 1
            self.known = known
            if old is None:
                self.vars.pop(v, None)
            else:
                self.vars[v] = old
            return "%s{%s%s}(%s)" % ("Sum" if k == "SUM" else "PSum", n, rg and " in " + rg, inner)
        if k == "PM":
            return "pmul(%s)[%s]" % (", ".join(sorted((self.nfs([(1, f)]) for f in (t[1], t[2])), key=mask)), self.ix(t[3]))
        if k == "ITE":
            o = self.order_ite(t)
            if o is not None:
                return self.fs(o[0][1][0]) if len(o) == 1 and o[0][0] == 1 and len(o[0][1]) == 1 else "(%s)" % self.nfs(o)
            m = self.match(t)
            if m is not None:
                return m
            keep = self.save()
            a, b = self.under(list(t[2][1]), t[1], True), self.under(list(t[3][1]), t[1], False)
            if mask(a) == mask(b):
                # the same value either way
                self.restore(keep)
                return self.wrap(list(t[2][1]))
            if (len(self.vars), len(self.rnds), self.nvar) != (len(keep[0]), len(keep[1]), keep[2]):
                # names were given out: again, in the order of the text
                self.restore(keep)
                return "ite(%s, %s, %s)" % (self.cond(t[1]), self.under(list(t[2][1]), t[1], True), self.under(list(t[3][1]), t[1], False))
            return "ite(%s, %s, %s)" % (self.cond(t[1]), a, b)
        if k == "ALT":
            if self.altd >= 3:
                return "alt{level?}"
            self.altd += 1
            try:
                return "alt{%s}" % " | ".join(sorted((self.nfs(list(x[1])) for x in t[1:]), key=mask))
            finally:
                self.altd -= 1
        if k == "rec":
            self.problems.append("recurrence")
            if len(t) > 3:
                self.busy.append(t[1])
                init = " | ".join(self.nfs(list(x[1])) for x in t[3])
                ph = t[1]
                while isinstance(ph, tuple) and ph[0] != "phi" and len(ph) > 1 and isinstance(ph[1], tuple):
                    ph = ph[1]
                known = self.binding(("lv", ph[1]))
                try:
                    return "rec(init: %s; step: %s)" % (init, " | ".join(self.nfs(list(x[1])) for x in t[2]))
                finally:
                    self.known = known
                    self.busy.pop()
            return "rec(%s)" % (t[1],)
        if k == "self":
            return "prior"
        if k == "opq":
            return "(%s)" % self.atom(t[1])
        if k == "P2":
            return "2^(%s)" % self.nfs(list(t[1][1]))
        return self.atom(t)

    def match(self, t):
        """alternatives by the variant of one enum value: one table, in the order of the variants"""
        c = t[1]
        if not (is_t(c, "sw") and is_t(c[1], "discr") and len(c[1]) > 2):
            return None
        d, names = c[1], c[1][2]
        n = [(1, (t,))]
        arms = []
        keep = self.save()
        for val, name in names:
            m = n
            for cc in self.sw_conds(n, d, []):
                m = self.assume(m, cc, val in cc[2])
            arms.append((name, m, ("sw", d, (val,))))
        ks = [mask(self.under(m, w, True)) for _, m, w in arms]
        self.restore(keep)
        best = max(range(len(arms)), key=lambda i: (ks.count(ks[i]), i))
        if ks.count(ks[best]) == len(arms):
            return self.wrap(arms[best][1])
        out = ["match(%s" % self.s(d[1])]
        done = set()
        for i, (name, m, w) in enumerate(arms):
            if ks[i] == ks[best] and ks.count(ks[best]) > 1 or ks[i] in done:
                continue
            done.add(ks[i])
            out.append("%s: %s" % ("|".join(a[0] for a, k in zip(arms, ks) if k == ks[i]), self.under(m, w, True)))
        if ks.count(ks[best]) > 1:
            out.append("else: " + self.under(arms[best][1], arms[best][2], True))
        return "; ".join(out) + ")"

    def sw_conds(self, n, d, out):
        for _, f in n:
            for x in f:
                if is_t(x, "ITE"):
                    if is_t(x[1], "sw") and x[1][1] == d and x[1] not in out:
                        out.append(x[1])
                    self.sw_conds(x[2][1], d, out)
                    self.sw_conds(x[3][1], d, out)
        return out

    def ix(self, t):
        if is_t(t, "lv") or is_t(t, "q") or is_t(t, "v") or is_t(t, "sx"):
            h = t[1] if t[0] != "sx" else t
            v = self.var(("lv", h) if t[0] != "sx" else t)
            return v
        if t == X:
            return "x"
        if is_t(t, "x"):
            return "x%d" % t[1]
        if is_t(t, "seqix"):
            return "seq(%s)" % ",".join(self.ix(x) for x in t[1:])
        if (is_t(t, "fo") or is_t(t, "fi")) and isinstance(t[1], tuple) and t[1][0] in ("lv", "q", "v"):
            return self.var((t[0], t[1][1]))
        if is_t(t, "rev"):
            return "rev(%s)" % self.ix(t[1])
        if is_t(t, "fromend"):
            return "end-%s" % t[1]
        if is_t(t, "brk"):
            return self.brk(t[1])
        return self.s(t)

    def brk(self, h):
        """the index at which a loop is left early, by the condition of leaving it"""
        al = self.alg
        hit = self.brks.get(h)
        if hit is not None:
            return hit
        self.brks[h] = "brk"
        body = al.loops.get(h, ())
        alts = set()
        for a in sorted(body):
            if a not in al.conds or is_t(al.conds[a], "discr") or is_t(al.conds[a], "int"):
                continue
            sw = al.b.blocks[a][1]
            if sw[0] != "switch" or any(w != 0 for w, z in sw[2]):
                continue
            for z in sorted(set(succs(sw))):
                if z in body or not self.returns(z):
                    continue
                cs = [self.side(a, z)]
                x = a
                while al.dom.idom[x] is not None and al.dom.idom[x] != x and x != h:
                    y = al.dom.idom[x]
                    if y in body and y in al.conds and not is_t(al.conds[y], "discr") and not is_t(al.conds[y], "int") and al.b.blocks[y][1][0] == "switch":
                        e = [w for w in set(succs(al.b.blocks[y][1])) if al.dom.edge_dominates((y, w), a)]
                        if len(e) == 1 and all(w == 0 for w, _ in al.b.blocks[y][1][2]):
                            cs.append(self.side(y, e[0]))
                    x = y
                alts.add(" && ".join(sorted(cs)))
        r = "brk{%s}" % " | ".join(sorted(alts)) if alts else "brk"
        self.brks[h] = r
        return r

    def side(self, a, z):
        c = self.alg.conds[a]
        vals = {x: w for w, x in self.alg.b.blocks[a][1][2]}
        return self.cond(canon_cond(("un", "Not", c) if vals.get(z) == 0 else c))

    def returns(self, z):
        """some return is reachable from block z"""
        al = self.alg
        if self.alive is None:
            preds = al.b.preds()
            self.alive = set()
            work = [i for i in al.reached if al.b.blocks[i][1][0] == "ret"]
            while work:
                x = work.pop()
                if x not in self.alive:
                    self.alive.add(x)
                    work += [p for p in preds[x] if p in al.reached]
        return z in self.alive

    def cond(self, t):
        neg = False
        x = t
        while is_t(x, "un") and x[1] == "Not" or is_t(x, "exq"):
            if is_t(x, "exq"):
                x, n = self.exq(x)
                neg ^= n
            else:
                x, neg = x[2], not neg
        if is_t(x, "exists"):
            return ("!(%s)" if neg else "%s") % self.atom(x)
        if is_t(x, "sw") and isinstance(x[2], tuple):
            d = x[1]
            if is_t(d, "discr"):
                nm = dict(d[2]) if len(d) > 2 else {}
                r = "%s is %s" % (self.s(d[1]), "|".join(str(nm.get(v, v)) for v in x[2]))
            else:
                r = "%s in [%s]" % (self.s(d), ", ".join(str(v) for v in x[2]))
            return "!(%s)" % r if neg else r
        if is_t(t, "bin") and t[1] in ("Eq", "Ne", "Lt", "Le"):
            a, b = self.s(t[2]), self.s(t[3])
            if t[1] in ("Eq", "Ne") and b < a:
                a, b = b, a
            return "%s %s %s" % (a, {"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<="}[t[1]], b)
        if is_t(t, "un") and t[1] == "Not":
            return "!(%s)" % self.cond(t[2])
        if is_t(t, "discr") and len(t) == 2 and isinstance(t[1], tuple) and t[1] and t[1][0] in ("phi", "sel", "prj"):
            b = self.boolof(self.nf(t))
            if b is not None and b != t:
                return self.cond(b)
        return self.s(t)

    def atom(self, t):
        if not isinstance(t, tuple):
            return str(t)
        k = t[0] if t else ""
        if k == "arg":
            return self.argn.get(t[1], "arg%d" % t[1])
        if k == "deref":
            return self.atom(t[1])
        if k == "fld":
            return "%s.%s" % (self.atom(t[1]), t[2])
        if k == "idx":
            return "%s[%s]" % (self.atom(t[1]), self.ix(t[2]))
        if k in ("fo", "fi", "lv", "q", "v", "sx", "x", "rev", "fromend", "brk"):
            return self.ix(t)
        if k == "rnd":
            # ("rnd", kind, bb, indices, params)
            key = (t[1], t[2])
            if key not in self.rnds:
                self.rnds[key] = len(self.rnds) + 1
            return "%s#%d[%s]%s" % (t[1], self.rnds[key], ",".join(self.ix(x) for x in t[3]), ("(%s)" % ", ".join(self.s(x) for x in t[4])) if t[4] else "")
        if k == "call":
            nm = t[1].split("::")[-1]
            idx = ""
            if isinstance(t[2], tuple):
                idx = "@[%s]" % ",".join(self.ix(x) for x in t[2][1:])
            return "%s%s(%s)" % (nm, idx, ", ".join(self.s(x) for x in t[3]))
        if k == "cast":
            if t[2] == "usize" and any(not pos and is_t(c, "bin") and c[1] == "Lt" and c[2] == t[3] and c[3] == ("int", 0) for c, pos in self.known):
                # a signed number known not to be negative is its own magnitude
                return "unsigned_abs(%s)" % self.s(t[3])
            return "(%s as %s)" % (self.s(t[3]), t[2])
        if k == "bin":
            if t[1] in ("Eq", "Ne", "Lt", "Le"):
                return "(%s)" % self.cond(t)
            return "(%s %s %s)" % (self.s(t[2]), t[1], self.s(t[3]))
        if k == "exists":
            known = self.binding(t[1])
            try:
                return "exists{%s}" % self.cond(canon_cond(t[2]))
            finally:
                self.known = known
        if k == "un":
            return "%s(%s)" % (t[1], self.s(t[2]))
        if k == "bot":
            return "bot"
        if k == "kc":
            return str(t[1]).split("::")[-1] if isinstance(t[1], str) else str(t[1])
        if k == "cparam":
            return str(t[1])
        if k == "sw":
            return "(%s)" % self.cond(t)
        if k == "discr":
            return "discr(%s)" % self.s(t[1])
        if k == "len":
            return "len(%s)" % self.atom(t[1])
        if k == "ref":
            r = t[1]
            if isinstance(r, int) and t not in self.busy and len(self.busy) < 8:
                self.busy.append(t)
                try:
                    v = self.alg.rd(self.alg.exit_state, r, t[2])
                    if not is_t(v, "undef"):
                        return "&(%s)" % self.s(v)
                except Exception:
                    pass
                finally:
                    self.busy.pop()
            b = self.atom(r[1]) if isinstance(r, tuple) else "local"
            return "&" + b + "".join(self.pel(e) for e in t[2])
        if k == "cref":
            return "&" + self.s(t[1])
        if k == "scratch":
            return "SCRATCH"
        if k == "undef":
            return "UNDEF"
        if k == "may":
            b = self.s(t[2])
            if b.startswith("+= ") or b == "prior":
                return "now(%s ; %s)" % (self.s(t[1]), b)      # an element in the middle of its accumulation
            return "may(%s | %s)" % (self.s(t[1]), b)
        if k == "vecnew":
            return "vec[]"
        if k in ("fft", "ifft"):
            return "%s(%s)[%s]" % (k, self.s(t[1]), self.ix(t[2]))
        if k == "agg" and isinstance(t[1], tuple) and t[1][0] == "closure":
            return self.closure(t)
        if k == "agg":
            tag = t[1] if isinstance(t[1], str) else t[1][1].split("::")[-1] + ("::" + t[1][3] if len(t[1]) > 3 and t[1][3] else "")
            return "%s{%s}" % (tag, ", ".join("%s:%s" % (n, self.s(v)) for n, v in zip(t[2], t[3])))
        if k == "vec":
            return "vec" + self.seq(t[1])
        if k == "upd":
            r = self.pushed(t)
            if r is not None:
                return r
            return "upd(%s; %s := %s)" % (self.s(t[1]), self.path(t[2]), self.s(t[3]))
        if k == "phi":
            return self.nfs(self.phi_nf(t))
        if k == "pmul":
            return "pmul(%s)[%s]" % (", ".join(sorted((self.s(t[1]), self.s(t[2])), key=mask)), self.ix(t[3]))
        if k == "str":
            return repr(t[1])
        if k == "it":
            return self.it(t)
        if k == "selfx":
            return "prior" if all(a == v or a == ("lv", t[1][1]) for a, v in t[1][3]) else "prior<%s>" % ",".join(self.ix(v) for a, v in t[1][3] if a != v and not (a == ("lv", t[1][1])))
        if k == "seqix":
            return "seq(%s)" % ",".join(self.ix(x) for x in t[1:])
        if k == "accum":
            if self.accd > 0:
                return "prior"      # what earlier iterations left in the element being accumulated
            self.accd += 1
            try:
                return "+= %s" % self.s(t[1])
            finally:
                self.accd -= 1
        if k == "chain":
            return "chain(%s ; %s)" % (self.s(t[1]), self.s(t[2]))
        if k == "chref":
            return "&chain(%s ; %s)" % (self.s(t[1]), self.s(t[2]))
        if k == "after":
            return "%s-len" % self.ix(t[1])
        if k == "sel":
            return "ite(%s, %s, %s)" % (self.cond(t[1]), self.s(t[2]), self.s(t[3]))
        if k == "iteq":
            return "ite(%s == %s, %s, %s)" % (self.ix(t[1]), self.ix(t[2]), self.s(t[3]), self.s(t[4]))
        if k == "lam":
            return "\\x." + self.s(t[1])
        if k in ("rot", "powk"):
            return "%s(%s; %s)[%s]" % (k, self.s(t[1]), self.s(t[2]), self.ix(t[3]))
        if k == "lvl":
            return "level?"
        if k == "prj":
            return self.nfs(self.prj_nf(t))
        if k == "op":
            if t[2]:
                key = (t[1], t[2][0])
                if key not in self.rnds:
                    self.rnds[key] = len(self.rnds) + 1
                return "%s#%d[%s](%s)" % (t[1], self.rnds[key], ",".join(self.ix(x) for x in t[2][1:]), "; ".join(self.s(x) for x in t[3]))
            xs = [self.s(x) for x in t[3]]
            if t[1] in COMMUTATIVE:
                xs[:2] = sorted(xs[:2])
            return "%s(%s)" % (t[1], "; ".join(xs))
        if k == "ent":
            return "{%s}" % ", ".join(self.s(x) for x in t[2:])
        if k == "fn":
            return "%s(%s)" % (t[1], ", ".join(self.s(x) for x in t[2:]))
        return "%s(%s)" % (k, ", ".join(self.s(x) if isinstance(x, tuple) else str(x) for x in t[1:]))

    def seq(self, t):
        """a sequence by its length restrictions and its element formula"""
        if not is_t(t, "it"):
            return "<%s>" % self.s(t)
        if t in self.busy or len(self.busy) > 6:
            return "<...>"
        self.busy.append(t)
        try:
            al = self.alg
            st = al.exit_state
            try:
                xs = al.extents(t)
            except Exception:
                xs = [("?",)]
            es = self.seq_exts(xs)
            q = ("q", ("seq", len(self.busy)) + ((hash(t) & 0xffffff),))
            try:
                e = al.elem_at(st, t, q)
                e = al.val(st, e) if t[1] != "chunks" else e
            except Exception:
                return "<?>"
            return "<%s => %s: %s>" % (",".join(sorted(es)), self.ix(q), self.s(e))
        finally:
            self.busy.pop()

    def seq_exts(self, xs):
        es = set()
        for x in xs:
            if x[0] == "n":
                es.add("%s..%s" % (self.s(x[1]), self.s(x[2])))
            elif x[0] == "len":
                known = None if isinstance(x[1], tuple) else self.local_exts(x[1], x[2])
                if known:
                    es |= known
                    continue
                b = self.atom(x[1][1]) if isinstance(x[1], tuple) else "local"
                es.add("%s%s" % (b, self.path(x[2])))
            elif x[0] == "lenv":
                es.add(self.s(x[1]))
            elif x[0] in ("skip", "take", "step_by", "filter", "take_while", "skip_while"):
                es.add("%s(%s)" % (x[0], self.s(x[1]) if isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], str) else ""))
            else:
                es.add(x[0])
        return es

    def local_exts(self, root, path):
        """what a variable's elements were made from, where it is a mapped sequence or (a copy of) an input"""
        if len(self.busy) > 6:
            return None
        try:
            v = self.alg.rd(self.alg.exit_state, root, path)
        except Exception:
            return None
        if is_t(v, "upd") and is_t(v[1], "vecnew") and len(v[2]) == 1 and isinstance(v[2][0], tuple) and v[2][0][0] == "i" and isinstance(v[2][0][1], tuple) and v[2][0][1][0] in ("q", "lv"):
            # filled by one push per round of a loop
            xs = self.alg.exts.get(v[2][0][1][1])
            if not xs or v in self.busy:
                return None
            self.busy.append(v)
            try:
                return self.seq_exts(xs)
            except Exception:
                return None
            finally:
                self.busy.pop()
        while is_t(v, "upd"):
            v = v[1]
        if v in self.busy:
            return None
        if is_t(v, "vec"):
            self.busy.append(v)
            try:
                return self.seq_exts(self.alg.extents(v[1]))
            except Exception:
                return None
            finally:
                self.busy.pop()
        x = v
        while is_t(x, "fld") or is_t(x, "deref"):
            x = x[1]
        return {self.s(v)} if is_t(x, "arg") else None

    def pushed(self, t):
        """a new vector filled by one push per round of a loop is the sequence the loop runs over, mapped"""
        p = t[2]
        if not is_t(t[1], "vecnew") or len(p) != 1 or not isinstance(p[0], tuple) or p[0][0] != "i" or not isinstance(p[0][1], tuple) or p[0][1][0] not in ("q", "lv"):
            return None
        xs = self.alg.exts.get(p[0][1][1])
        if not xs or len(self.busy) > 6 or self.alg._mentions(t[3], t[1]):
            return None
        self.busy.append(t)
        try:
            es = self.seq_exts(xs)
            return "vec<%s => %s: %s>" % (",".join(sorted(es)), self.ix(p[0][1]), self.s(t[3]))
        finally:
            self.busy.pop()

    def closure(self, t):
        """a closure value: what its body computes, over what it captured"""
        al = self.alg
        f = al.prog.fns.get(t[1][1]) if al.prog is not None else None
        caps = ", ".join(self.s(v) for v in t[3])
        if f is None or al.cldepth > 3:
            return "closure(%s)" % caps
        if t[1][1] not in al.clsum:
            al.clsum[t[1][1]] = "?"
            try:
                nm = ["cap"] + ["p%d" % i for i in range(1, f["argc"])]
                o, _ = summary(al.prog, f, al.atoms, al.policy, want_alg=True, argnames=nm, cldepth=al.cldepth + 1)
                r = "; ".join("%s := %s" % (k, v) for k, v in sorted(o.items()) if not k.startswith("#"))
                if len(r) > 300 and not t[3]:
                    # a self-contained initialiser: what it calls is compared where it is defined
                    o, _ = summary(al.prog, f, al.atoms, lambda *a: False, want_alg=True, argnames=nm, cldepth=al.cldepth + 1)
                    q = "; ".join("%s := %s" % (k, v) for k, v in sorted(o.items()) if not k.startswith("#"))
                    r = min(r, q, key=len)
                al.clsum[t[1][1]] = r
            except RecursionError:
                al.clsum[t[1][1]] = "?"
        return "closure{%s}(%s)" % (al.clsum[t[1][1]], caps)

    def it(self, t):
        if is_t(t, "it") and t[1] not in ("chunks", "digits", "sdigits"):
            return "it" + self.seq(t)
        if not is_t(t, "it"):
            return self.atom(t)
        if t[1] in ("digits", "map", "repeatwith"):
            t = t[:2] + tuple(x for x in t[2:] if not isinstance(x, int) and x is not None)
        return "it:%s(%s)" % (t[1], ", ".join(self.it(x) if is_t(x, "it") else self.itarg(x) for x in t[2:]))

    def itarg(self, x):
        if not isinstance(x, tuple) or not x:
            return str(x)
        if isinstance(x[0], str) and not (x[0].isidentifier() and len(x) > 1 and isinstance(x[1], tuple) and x[1] and x[1][0] in ("i", "rng", "lo", "hi")):
            return self.s(x)
        return "".join(self.pel(e) for e in x)

    def pel(self, e):
        if isinstance(e, str):
            return "." + e
        if e[0] == "i":
            return "[%s]" % self.ix(e[1])
        if e[0] == "rng":
            return "@rng(%s..%s)" % (self.s(e[1]), "" if e[2] == ("end",) else self.s(e[2]))
        return "@%s%s" % (e[0], "(%s)" % ",".join(self.s(x) if isinstance(x, tuple) else str(x) for x in e[1:]) if len(e) > 1 else "")

    def path(self, p):
        return "".join(("." + e) if isinstance(e, str) else ("[%s]" % self.ix(e[1]) if e[0] == "i" else ("@%s" % (",".join(self.s(x) if isinstance(x, tuple) else str(x) for x in e)))) for e in p)


def _conds_tmp(self):
    return self.conds


Alg.conds_tmp = _conds_tmp


def summary(prog, fn, atoms=None, policy=None, want_alg=False, argnames=None, cldepth=0, with_effects=False):
    """{output string: formula string} for a function"""
    b = Inliner(prog, policy or (lambda f, c, bb_, bb: True), max_depth=20).build(fn)
    al = Alg(b, atoms, prog=prog)
    al.prog, al.policy, al.cldepth = prog, policy, cldepth
    st = al.exit_state
    names = {i: "arg%d" % i for i in range(1, fn["argc"] + 1)}
    for x in fn.get("names") or ():
        if len(x[1]) == 1 and 1 <= x[1][0] <= fn["argc"]:
            names[x[1][0]] = x[0]
    for i, x in enumerate(argnames or ()):
        names[i + 1] = x
    out = {}
    if st is None:
        return (out, al) if want_alg else out
    keys = [k for k in st if k[0] != "#" and isinstance(k[0], tuple) and is_t(k[0][1], "arg")]
    rnds = {}
    groups = {}
    for root, path in keys:
        if any(len(k[1]) > len(path) and k[1][:len(path)] == path for k in keys if k[0] == root):
            v = al.rd_base(st, root, path)
            if is_t(v, "upd"):
                continue     # described by its parts
        else:
            v = al.rd(st, root, path)
        path, v, spans = al.canon_key(path, v)
        R = Render(al, names, rnds)
        for e in path:
            if isinstance(e, tuple) and e[0] == "i":
                R.ix(e[1])
        ps = names.get(root[1][1], "?") + R.path(path)
        groups.setdefault(ps, []).append((root, path, v, spans, R))
    for ps, l in groups.items():
        for path, v, sp, R in merge_pieces(al, l, ps):
            vs = R.s(v)
            al.range_used.update(q[1] for e in path if isinstance(e, tuple) and e[0] == "i" for q in _qs(al, e[1]))
            sfx = ""
            for q, (lo, hi) in sp.items():
                r = span_str(R.s(lo), None if hi is None else R.s(hi), R.ix(q), ps + " " + vs)
                if r:
                    sfx += " for %s in %s" % (R.ix(q), r)
            out[ps + sfx] = vs
    R = Render(al, names, rnds)
    v = al.rd(st, 0, ())
    rt = b.locals[0]
    unit_ret = rt is not None and (rt.s == "()" or rt.s == "!")
    if not unit_ret and v not in (("undef", 0), ("unit",)) and not (is_t(v, "agg") and v[1] == "tuple" and not v[3]) and not is_t(v, "zst"):
        out["ret"] = R.s(v)
    for (bb, _), (root, path, v) in sorted(al.scat.items(), key=lambda x: x[0][0]):
        if not is_t(root[1], "arg"):
            continue
        R = Render(al, names, rnds)
        cs = []
        x = bb
        while al.dom.idom[x] is not None and al.dom.idom[x] != x:
            y = al.dom.idom[x]
            if y < al.dom.n and y in al.conds and not is_t(al.conds[y], "discr") and not is_t(al.conds[y], "int"):
                sw = al.b.blocks[y][1]
                e = [z for z in set(succs(sw)) if al.dom.edge_dominates((y, z), bb)]
                vals = {z: w for w, z in sw[2]} if sw[0] == "switch" else {}
                if sw[0] == "switch" and len(e) == 1 and _inloop(al, y) and all(w == 0 for w in vals.values()):
                    c = al.conds[y]
                    cs.append(R.cond(canon_cond(("un", "Not", c) if vals.get(e[0]) == 0 else c)))
            x = y
        vs = R.s(v)
        out["%s%s when %s" % (names.get(root[1][1], "?"), R.path(path), " && ".join(sorted(cs)) or "always")] = vs
    out.update(guards(al, Render(al, names, {})))
    if with_effects:
        out.update(effects(al, Render(al, names, {}), prog))
    rg = set()
    R = Render(al, names, {})
    for h, xs in al.exts.items():
        if isinstance(h, tuple) and h[0] == "mx":
            continue
        if h not in al.loops and not isinstance(h, tuple) or h in al.range_used and al.span(h) is not None:
            continue
        for x in xs:
            r = None
            if x[0] == "n":
                r = "%s..%s" % (R.s(x[1]), R.s(x[2]))
            elif x[0] in ("skip", "take", "step_by", "filter", "take_while", "skip_while"):
                r = "%s(%s)" % (x[0], R.s(x[1]) if isinstance(x[1], tuple) else x[1])
            elif x[0] == "once":
                r = "once"
            if r is not None:
                rg.add(r)
    if rg:
        out["#ranges"] = " ; ".join(sorted(rg))
    out = relabel(out)
    return (out, al) if want_alg else out


def _qs(al, t):
    vs = []
    al._free(t, vs)
    return vs


def merge_pieces(al, l, ps):
    """several writes covering consecutive index ranges of one place become one case distinction"""
    if len(l) == 1:
        _, path, v, sp, R = l[0]
        return [(path, v, sp, R)]
    R0, path0, sp0 = l[0][4], l[0][1], l[0][3]
    order = [q for e in path0 if isinstance(e, tuple) and e[0] == "i" for q in _qs(al, e[1])]
    pcs = []
    for root, path, v, sp, R in l:
        o = [q for e in path if isinstance(e, tuple) and e[0] == "i" for q in _qs(al, e[1])]
        act = [q for q in sp if sp[q][0] != ("int", 0) or sp[q][1] is not None]
        if len(o) != len(order) or len(act) > 1:
            return [(p, v, s, R) for _, p, v, s, R in l]
        m = dict(zip(o, order))
        if not act:
            act = [o[-1]]
            sp = dict(sp)
            sp.setdefault(o[-1], (("int", 0), None))
        lo, hi = sp[act[0]]
        pcs.append((m[act[0]], lo, hi, al.subst(v, {a: b for a, b in m.items() if a != b})))
        al.range_used.update(q[1] for q in o)
    if len({p[0] for p in pcs}) != 1:
        return [(p, v, s, R) for _, p, v, s, R in l]
    J = pcs[0][0]

    def S(t):
        return None if t is None else R0.s(t)
    # alternatives of a dispatcher write the same values over the same range
    uniq = {}
    for p in pcs:
        k = S(p[1]), R0.s(p[3])
        q = uniq.get(k)
        if q is None or q[2] is None and p[2] is not None and is_len(S(al.binop("Sub", p[2], p[1]))):
            uniq[k] = p
        elif S(q[2]) != S(p[2]) and not (p[2] is None and is_len(S(al.binop("Sub", q[2], q[1])))):
            return [(p, v, s, R) for _, p, v, s, R in l]
    pcs = list(uniq.values())
    cur = [p for p in pcs if S(p[1]) == "0"]
    chain = []
    left = list(pcs)
    while len(cur) == 1:
        chain.append(cur[0])
        left.remove(cur[0])
        e = S(cur[0][2])
        cur = [p for p in left if S(p[1]) == e]
    if left or not chain:
        return [(p, v, s, R) for _, p, v, s, R in l]
    v = chain[-1][3]
    for _, lo, hi, w in reversed(chain[:-1]):
        v = ("sel", ("bin", "Lt", J, hi), w, v)
    end = chain[-1][2]
    if end is not None and is_len(S(al.binop("Sub", end, chain[-1][1]))):
        end = None     # the last piece has its natural length
    return [(path0, v, {J: (("int", 0), end)}, R0)]


def _inloop(al, bb):
    return any(bb in al.loops[h] for h in al.loops if not isinstance(h, tuple))


def guards(al, R):
    """conditions the function insists on: a branch side from which the function cannot return, and results it unwraps"""
    b = al.b
    alive = set()
    preds = b.preds()
    work = [i for i in al.reached if b.blocks[i][1][0] == "ret"]
    while work:
        x = work.pop()
        if x in alive:
            continue
        alive.add(x)
        work += [p for p in preds[x] if p in al.reached]
    gs = set()
    for bb in sorted(al.reached):
        t = b.blocks[bb][1]
        if bb not in alive:
            continue
        if t[0] == "switch" and bb in al.conds:
            c = al.conds[bb]
            if is_t(c, "int"):
                continue
            dead = [x for _, x in t[2] if x not in alive]
            if not dead and t[3] in alive:
                continue
            if not dead and b.blocks[t[3]][1][0] == "unreach":
                continue
            live = tuple(sorted(v for v, x in t[2] if x in alive))
            if t[3] in alive:
                g = ("un", "Not", al.swcond(bb, c, tuple(sorted(v for v, x in t[2] if x not in alive))))
            else:
                g = al.swcond(bb, c, live)
            gs.add(R.cond(canon_cond(g)))
        if t[0] == "call" and bb in al.calls:
            n = al.calls[bb]["name"] or ""
            if n.startswith("core::result::Result") and n.rsplit("::", 1)[-1] in ("unwrap", "expect"):
                g = R.s(al.calls[bb]["args"][0])
                m = re.fullmatch(r"ite\((.*), Result::Ok\{0:tuple\{\}\}, Result::Err\{0:.*\}\)", g)
                gs.add(m.group(1) if m else "ok " + g)
    gs = {g for g in gs if "it<" not in g and "it:" not in g and ".stride" not in g and "&(" not in g and "upd(" not in g and "SCRATCH" not in g and "&local" not in g}
    return {"#requires": " && ".join(sorted(gs))} if gs else {}


EFFECTS = {"send", "push", "push_back", "push_front", "insert", "remove", "pop", "pop_front", "pop_back", "recv", "try_recv", "fetch_add", "fetch_sub", "store", "swap", "take",
           "spawn", "spawn_fifo", "wait", "clear", "extend", "append", "set", "retire", "drop", "write", "update", "replace", "call", "call_mut", "call_once", "from_raw"}
LOCAL = {"push", "push_back", "push_front", "insert", "remove", "pop", "pop_front", "pop_back", "take", "clear", "extend", "append", "write", "update", "replace", "swap"}
NOEFF = ("core::slice", "core::panicking", "core::fmt", "alloc::fmt", "core::mem::drop", "core::ptr", "core::ops::drop")


def way(al, R, bb):
    """the conditions every way to bb has passed"""
    cs = []
    x = bb
    while al.dom.idom[x] is not None and al.dom.idom[x] != x:
        y = al.dom.idom[x]
        if y < al.dom.n and y in al.conds and al.b.blocks[y][1][0] == "switch" and not is_t(al.conds[y], "int"):
            sw = al.b.blocks[y][1]
            es = [z for z in sorted(set(succs(sw))) if al.dom.edge_dominates((y, z), bb)]
            if len(es) == 1:
                vals = swvals(sw)
                c = al.conds[y]
                if es[0] in vals:
                    g = al.swcond(y, c, vals[es[0]])
                elif vals:
                    g = ("un", "Not", al.swcond(y, c, tuple(sorted(v for vs in vals.values() for v in vs))))
                else:
                    g = None
                if g is not None and not is_t(c, "discr") or g is not None and not is_t(c[1], "nextv") and not is_t(c[1], "next"):
                    cs.append(R.cond(canon_cond(g)))
        x = y
    return cs


def effects(al, R, prog):
    """calls made for what they do (opaque ones without a result, and the known mutators of queues, cells and counters), each
    with the conditions on the way to it: {"#effect call(...)": "when ..."}"""
    out = {}
    for bb in sorted(al.calls):
        rec = al.calls[bb]
        n = rec["name"] or ""
        sn = short(rec["bn"] or n)
        if n.startswith(NOEFF) or bb not in al.reached or "log::" in n or "tracing" in n:
            continue
        dest = al.b.blocks[bb][1][3] if al.b.blocks[bb][1][0] == "call" else None
        ty = al.b.locals[dest[0]] if dest and len(dest) == 1 else None
        unit = ty is not None and ty.s == "()"
        mine = any(n.lstrip("<").startswith(c) for c in ("parasol_", "mux_circuits", "sunscreen_"))
        if sn == "__from_elem" and "aligned_vec" in n and len(rec["args"]) == 3:
            out["#effect aligned(%s)" % R.s(rec["args"][0])] = "always"     # the alignment a new aligned vector is made with
            continue
        if not (sn in EFFECTS and not n.startswith("core::option") or unit and mine):
            continue
        if sn not in EFFECTS and any(t is not None and t.s.startswith("&mut") for t in rec["optys"]):
            continue        # what it writes is in the formulas
        if rec["args"] and is_t(rec["args"][0], "ref") and isinstance(rec["args"][0][1], int) and sn in LOCAL:
            continue
        cs = way(al, R, bb)
        lp = " in loop" * len(al.inloops.get(bb, ()))
        k = "#effect %s(%s)" % (sn, ", ".join(R.s(a) for a in rec["args"]))
        w = (" && ".join(sorted(set(cs))) or "always") + lp
        k0, i = k, 1
        while k in out:
            i += 1
            k = "%s (%d)" % (k0, i)
        out[k] = w
    for bb, i, (root, path), v, ln in al.writes:
        if isinstance(root, int) or not is_t(root, "m") or bb not in al.reached:
            continue
        x = root[1]
        while is_t(x, "deref") or is_t(x, "fld") or is_t(x, "idx") or is_t(x, "dc") or is_t(x, "pr"):
            x = x[1]
        if not is_t(x, "call"):
            continue
        if is_t(v, "undef"):
            continue
        k = "#effect %s%s := %s" % (R.s(root[1]), R.path(path), R.s(v))
        cs = way(al, R, bb)
        w = (" && ".join(sorted(set(cs))) or "always") + " in loop" * len(al.inloops.get(bb, ()))
        k0, i = k, 1
        while k in out:
            i += 1
            k = "%s (%d)" % (k0, i)
        out[k] = w
    return out


CMPS = ("ne", "ge", "gt", "le")


def cmp_call(c):
    """an opaque comparison through eq / lt only: (condition, negated)"""
    pre, n = c[1].rsplit("::", 1)
    a, b = c[3]
    if n == "ne":
        return ("call", pre + "::eq", c[2], (a, b)), True
    if n in ("gt", "le"):
        a, b = b, a
    return ("call", pre + "::lt", c[2], (a, b)), n != "gt"


def swvals(t):
    """target block -> the values that lead there"""
    v = {}
    for x, bb in t[2]:
        v.setdefault(bb, []).append(x)
    return {bb: tuple(sorted(x)) for bb, x in v.items() if bb != t[3]}


def canon_cond(c):
    neg = {"Eq": "Ne", "Ne": "Eq"}
    if is_t(c, "call") and c[1].rsplit("::", 1)[-1] in CMPS and len(c[3]) == 2:
        c, n = cmp_call(c)
        return ("un", "Not", c) if n else c
    if is_t(c, "un") and c[1] == "Not" and is_t(c[2], "call") and c[2][1].rsplit("::", 1)[-1] in CMPS and len(c[2][3]) == 2:
        c, n = cmp_call(c[2])
        return c if n else ("un", "Not", c)
    while is_t(c, "un") and c[1] == "Not":
        x = c[2]
        if is_t(x, "un") and x[1] == "Not":
            c = x[2]
        elif is_t(x, "bin") and x[1] in neg:
            c = ("bin", neg[x[1]], x[2], x[3])
        elif is_t(x, "bin") and x[1] in ("Lt", "Le", "Gt", "Ge"):
            o, p, q = x[1:]
            c = {"Lt": ("bin", "Le", q, p), "Le": ("bin", "Lt", q, p), "Gt": ("bin", "Le", p, q), "Ge": ("bin", "Lt", p, q)}[o]
        else:
            break
    if is_t(c, "bin") and c[1] in ("Gt", "Ge"):
        c = ("bin", "Lt" if c[1] == "Gt" else "Le", c[3], c[2])
    return c


def relabel(out):
    """number the random samples in order of appearance over the sorted outputs"""
    m = {}

    def f(x):
        return "#" + m.setdefault(x.group(1), str(len(m) + 1))
    return {k: re.sub(r"#(\d+)", f, out[k]) for k in sorted(out, key=mask)}
