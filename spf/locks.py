"""Extraction of the atomic-state protocol of a lock-like cell and its typestate rules.

For each function the MIR is inlined inside the crate and constant-propagated once per representative value of the
state word; every atomic operation thereby yields its transition relation and the set of program points it admits.
"""
from .mir import Inliner, succs, callee_of, dominators
from .facts import Ty
from .terms import Interp, is_t, short, base_name

U = (1 << 64) - 1
ACQ = ("Acquire", "AcqRel", "SeqCst")
REL = ("Release", "AcqRel", "SeqCst")


def ordering(t):
    if is_t(t, "agg") and isinstance(t[1], tuple) and t[1][1].endswith("atomic::Ordering"):
        return t[1][3]
    return None


def is_atomic_call(name):
    return name is not None and name.startswith("core::sync::atomic::Atomic") and "::" in name


class WInterp(Interp):
    wide_fold = True   # the word is 64 bits wide: fold modulo 2^64

    def rvalue(self, st, r, tys, bb):
        if r[0] == "int0":
            return ("int", 0)
        return super().rvalue(st, r, tys, bb)

    def proj(self, st, v, e):
        # ("try", expected, seen, bb): an undecided compare-exchange
        if is_t(v, "dc") and is_t(v[1], "try"):
            return v[1][1] if v[2] == "Ok" else v[1][2]
        return super().proj(st, v, e)


class Op:
    def __init__(self, bb, m, args):
        self.bb, self.m, self.args = bb, m, args


# combinators whose closure runs at most once, depending on the variant of the first argument:
# name -> (running variant, what the closure's result becomes, value when it does not run)
LOWER = {
    "core::option::Option::map": ("Some", "Some", "None"), "core::option::Option::and_then": ("Some", "ret", "None"),
    "core::option::Option::map_or": ("Some", "ret", "arg1"), "core::option::Option::ok_or_else": ("None", "Err", "Ok"),
    "core::option::Option::unwrap_or_else": ("None", "ret", "payload"), "core::option::Option::or_else": ("None", "ret", "arg0"),
    "core::option::Option::is_some_and": ("Some", "ret", "false"),
    "core::result::Result::map": ("Ok", "Ok", "Err"), "core::result::Result::map_err": ("Err", "Err", "Ok"),
    "core::result::Result::and_then": ("Ok", "ret", "Err"), "core::result::Result::or_else": ("Err", "ret", "Ok"),
    "core::result::Result::unwrap_or_else": ("Err", "ret", "payload"), "core::result::Result::map_or": ("Ok", "ret", "arg1"),
    "core::result::Result::is_ok_and": ("Ok", "ret", "false"), "core::result::Result::is_err_and": ("Err", "ret", "false"),
    "bool::then": ("true", "Some", "None"), "core::bool::then": ("true", "Some", "None"),
}
VIDX = {"None": 0, "Some": 1, "Ok": 0, "Err": 1}
ADT = {"None": "core::option::Option", "Some": "core::option::Option", "Ok": "core::result::Result", "Err": "core::result::Result"}


class LInliner(Inliner):
    """inlines within the crate and writes Option/Result/bool combinators out as the branches they are"""

    def _expand(self, b, bb, sub, stack, depth, fid, tys):
        t0 = b.blocks[bb][1]
        c = callee_of(t0)
        low = None
        if c is not None and t0[4] is not None:
            n = c["n"]
            low = LOWER.get(n)
        args, dest, tgt, span = t0[2], t0[3], t0[4], t0[6]
        nblk = len(b.blocks)
        super()._expand(b, bb, sub, stack, depth, fid, tys)
        if low is None or bb not in b.closure_rets or len(b.closure_rets[bb]) != 1 or len(b.blocks) == nblk:
            return
        key, retl, hub = b.closure_rets.pop(bb)[0]
        run, res, other = low
        pre = b.blocks[hub][1][1][1]
        a0 = args[0]
        tmp = len(b.locals)
        b.locals += [Ty("other", "tmp"), Ty("other", "tmp")]
        st = b.blocks[bb][0]
        st.append(["=", [tmp], ["use", a0], span])

        def field(var):
            return ["m", [tmp, ["d", VIDX[var], var], ["f", 0, "0"]]]

        def built(var, op):
            return ["agg", ["adt", ADT[var], VIDX[var], var, ["0"] if op is not None else []], [op] if op is not None else []]
        # closure side
        for s in b.blocks[pre][0]:
            if s[0] == "=" and s[2][0] == "clarg":
                s[2] = ["use", field(run)]
        fin = ["use", ["m", [retl]]] if res == "ret" else built(res, ["m", [retl]])
        b.blocks[hub] = [[["=", dest, fin, span]], ["goto", tgt], fid]
        # the other side
        oth = len(b.blocks)
        OPP = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}
        if other in ("None",):
            v = built("None", None)
        elif other in ("Ok", "Err"):
            v = built(other, field("Some" if run == "None" else OPP[run]))
        elif other == "payload":
            v = ["use", field(OPP[run])]
        elif other == "arg1":
            v = ["use", args[1]]
        elif other == "arg0":
            v = ["use", ["m", [tmp]]]
        else:
            v = ["int0"]
        b.blocks.append([[["=", dest, v, span]], ["goto", tgt], fid])
        if run == "true":
            b.blocks[bb][1] = ["switch", ["m", [tmp]], [[0, oth]], pre]
        else:
            st.append(["=", [tmp + 1], ["discr", [tmp]], span])
            b.blocks[bb][1] = ["switch", ["m", [tmp + 1]], [[VIDX[run], pre]], oth]


def retarget(t, m):
    """terminator t with its successors renamed by m"""
    g = lambda x: m.get(x, x) if isinstance(x, int) else x
    t = list(t)
    k = t[0]
    if k == "goto":
        t[1] = g(t[1])
    elif k == "switch":
        t[2] = [[v, g(b)] for v, b in t[2]]
        t[3] = g(t[3])
    elif k == "drop":
        t[2] = g(t[2])
    elif k in ("call", "assert"):
        if t[4] is not None:
            t[4] = g(t[4])
    elif k == "asm":
        t[3] = [g(x) for x in t[3]]
    elif k == "nd":
        t[1] = [g(x) for x in t[1]]
    return t


def peel(body):
    """every loop's first iteration written out separately, so that values carried round it stay apart;
    body.orig maps a block to the block it was copied from"""
    body.orig = {}
    n = len(body.blocks)
    ss = [succs(b[1]) for b in body.blocks]
    pp = [[] for _ in range(n)]
    for i, l in enumerate(ss):
        for x in l:
            pp[x].append(i)
    idom = dominators(ss, pp, n, 0)

    def dominates(a, b):
        while b is not None and b != a and idom[b] != b:
            b = idom[b]
        return a == b
    loops = {}
    for i in range(n):
        if idom[i] is None:
            continue
        for h in ss[i]:
            if dominates(h, i):
                st, seen = [i], {h}
                while st:
                    x = st.pop()
                    if x not in seen:
                        seen.add(x)
                        st += pp[x]
                loops.setdefault(h, set()).update(seen)
    # innermost first; only loops without inner loops are peeled (nested spinning stays joined)
    for h, ls in sorted(loops.items()):
        if any(h2 != h and h2 in ls for h2 in loops) or len(ls) > 200:
            continue
        m = {}
        for x in sorted(ls):
            m[x] = len(body.blocks)
            body.blocks.append(None)
        for x in ls:
            st, t, fid = body.blocks[x]
            body.blocks[m[x]] = [st, retarget(t, m), fid]
            body.orig[m[x]] = body.orig.get(x, x)
        for x in ls:
            # the original copy is the first iteration: going round enters the copy
            body.blocks[x] = [body.blocks[x][0], retarget(body.blocks[x][1], {h: m[h]}), body.blocks[x][2]]
    return body


class Lock:
    """cell: cell ADT dict; state/val: field names; word: atomic payload type string; guards: {adt: mode}."""

    def __init__(self, ctx, cell, state, val, word, guards, reps):
        self.ctx, self.prog = ctx, ctx.prog
        self.cell, self.state, self.val, self.word, self.guards, self.reps = cell, state, val, word, guards, reps
        self.crate = "parasol_concurrency"
        self.bodies = {}
        self.memo = {}

    def roots(self):
        for f in self.prog.fns.values():
            if f["crate"] == self.crate and f["kind"] != "closure" and (f.get("pub") or f.get("trait")):
                yield f

    def body(self, f):
        if f["key"] not in self.bodies:
            self.bodies[f["key"]] = peel(LInliner(self.prog, lambda fn, c, b, bb: fn["crate"] == self.crate).build(f))
        return self.bodies[f["key"]]

    def _is_state_op(self, rec):
        n = rec["name"]
        if not is_atomic_call(n) or not rec["args"]:
            return False
        ty = rec["optys"][0]
        return ty is not None and ty.k == "ref" and ty.a[0].k == "adt" and ty.a[0].p.startswith("core::sync::atomic::Atomic") and \
            any(x.s == self.word for x in ty.a[0].a)

    def outcome(self, interp, st, rec, x, w):
        """-> (result term, y) ; y = new state when the word holds x (None: no write / unknown 'bad')"""
        m = short(rec["name"])
        a = rec["args"]
        ok = lambda v: ("agg", ("adt", "core::result::Result", 0, "Ok"), ("0",), (("int", v),))
        err = lambda v: ("agg", ("adt", "core::result::Result", 1, "Err"), ("0",), (("int", v),))
        iv = lambda t: t[1] if is_t(t, "int") else None
        mask = 1 if self.word == "bool" else U
        if m == "load":
            return ("int", x), x
        if m in ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_nand", "fetch_max", "fetch_min", "swap"):
            k = iv(a[1])
            if k is None:
                return ("int", x), "?"
            y = {"fetch_add": x + k, "fetch_sub": x - k, "fetch_or": x | k, "fetch_and": x & k, "fetch_xor": x ^ k, "fetch_nand": ~(x & k),
                 "fetch_max": max(x, k), "fetch_min": min(x, k), "swap": k}[m]
            return ("int", x), y & mask
        if m == "store":
            k = iv(a[1])
            return ("unit",), ("?" if k is None else k)
        if m in ("compare_exchange", "compare_exchange_weak", "compare_and_swap"):
            e, n = iv(a[1]), iv(a[2])
            if e is None:
                return None, "?"
            if e == x:
                return ok(x), ("?" if n is None else n)
            return err(w), x
        if m in ("fetch_update", "try_update", "update"):
            ty = rec["optys"][3]
            ty = ty.peel() if ty is not None else None
            cf = self.prog.fns.get(ty.key) if ty is not None and ty.k in ("closure", "fndef") else None
            if cf is None:
                return None, "?"
            r = self.const_closure(cf, x)
            if m == "update":
                return ("int", x), (iv(r) if iv(r) is not None else "?")
            if is_t(r, "agg") and isinstance(r[1], tuple) and r[1][1] == "core::option::Option":
                if r[1][3] == "None":
                    return err(x), x
                if is_t(r[3][0], "int"):
                    return ok(x), r[3][0][1] & mask
            return None, "?"
        return None, "?"

    def const_closure(self, cf, x):
        body = LInliner(self.prog, lambda fn, c, b, bb: fn["crate"] == self.crate).build(cf)
        pos = cf["argc"]

        class CI(WInterp):
            def initial(s, root):
                if root == pos:
                    return ("int", x)
                return Interp.initial(s, root)
        it = CI(body, hooks=self.fold)
        vals = set()
        for v in it.ret_terms.values():
            vals |= set(it.expand(v))
        if len(vals) == 1:
            return vals.pop()
        return None

    @staticmethod
    def fold(interp, st, rec):
        """constant folding of Option/Result predicates and checked arithmetic"""
        n = rec["name"] or ""
        sn = short(n)
        a = rec["args"]
        if sn in ("is_ok", "is_err", "is_some", "is_none") and n.startswith("core::") and a:
            root, path = interp.deref_place(a[0])
            v = interp.rd(st, root, path)
            if is_t(v, "agg") and isinstance(v[1], tuple):
                var = v[1][3]
                return ("int", int({"is_ok": var == "Ok", "is_err": var == "Err", "is_some": var == "Some", "is_none": var == "None"}[sn]))
        if sn in ("ok", "err") and n.startswith("core::result") and a and is_t(a[0], "agg"):
            var = a[0][1][3]
            if (sn == "ok") == (var == "Ok"):
                return ("agg", ("adt", "core::option::Option", 1, "Some"), ("0",), a[0][3])
            return ("agg", ("adt", "core::option::Option", 0, "None"), (), ())
        if n in ("bool::then_some",) or n.endswith("bool::then_some"):
            if is_t(a[0], "int"):
                if a[0][1]:
                    return ("agg", ("adt", "core::option::Option", 1, "Some"), ("0",), (a[1],))
                return ("agg", ("adt", "core::option::Option", 0, "None"), (), ())
        if sn in ("wrapping_add", "wrapping_sub", "checked_add", "checked_sub") and len(a) == 2 and is_t(a[0], "int") and is_t(a[1], "int"):
            y = a[0][1] + a[1][1] if sn.endswith("add") else a[0][1] - a[1][1]
            if sn.startswith("wrapping"):
                return ("int", y & U)
            if 0 <= y <= U:
                return ("agg", ("adt", "core::option::Option", 1, "Some"), ("0",), (("int", y),))
            return ("agg", ("adt", "core::option::Option", 0, "None"), (), ())
        return None

    def run(self, body, x, only=None, v=None, w=None):
        """Interp with the state word assumed to hold x at the operations of group `only` (all when None), earlier loads
        to have returned v and failed exchanges to have returned w: in between other threads may move the word.
        -> (interp, {bb: (Op, y)})"""
        v = x if v is None else v
        w = x if w is None else w
        key = (id(body), x, only, v, w)
        if key in self.memo:
            return self.memo[key]
        ops = {}

        def hook(interp, st, rec):
            if self._is_state_op(rec):
                bb = rec["bb"]
                sn = short(rec["name"])
                if sn == "load":
                    ops[bb] = (Op(bb, "load", rec["args"]), v)
                    return ("int", v)
                mine = only is None or bb == only
                r, y = self.outcome(interp, st, rec, x, w if only is not None else x)
                if y == "?" and (v != x or w != x) and sn.startswith("compare") and rec["args"][1][0] != "int":
                    y = x   # a compare-exchange whose expected value is not decided validates it: judged with v == w == x
                ops[bb] = (Op(bb, sn, rec["args"]), y)
                if mine and r is not None:
                    return r
                if sn.startswith("compare"):
                    return ("try", rec["args"][1], ("int", w), bb)
                return ("opaque", bb)
            return self.fold(interp, st, rec)
        it = WInterp(body, hooks=hook)
        self.memo[key] = (it, ops)
        return it, ops

    @staticmethod
    def group(body, bb):
        return body.orig.get(bb, bb)

    def copies(self, body, o):
        return [o] + [c for c, x in body.orig.items() if x == o]

    def judged(self, body, x, o, v, w):
        """for each copy c of operation o, judged while the state is x: (c, Op, new state, edges)"""
        out = []
        for c in self.copies(body, o):
            it, res = self.run(body, x, c, v, w)
            if c in res:
                em = edge_map(it)
                if c in reach(em, 0):
                    out.append((c, res[c][0], res[c][1], em))
        return out

    def triples(self):
        """(state, value an earlier load returned, value an earlier failed exchange returned)"""
        xs = self.reps
        return [(x, v, w) for x in xs for v in xs for w in xs]

    def pairs(self, held):
        return [(x, v) for x in held for v in held]

    def guard_sites(self, body):
        out = {}
        for i, blk in enumerate(body.blocks):
            for s in blk[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in self.guards:
                    out[i] = s[2][1][1]
        return out

    def _mine(self, body, bb):
        """the access at bb belongs to this cell (by the self type of the enclosing frames)"""
        fid = body.blocks[bb][2]
        while fid is not None:
            fr = body.frames[fid]
            st = fr["fn"].get("selfty")
            if st is not None and st.p:
                return st.p in self.guards or st.p == self.cell["n"]
            fid = fr["parent"]
        return True

    def cell_sites(self, body):
        """UnsafeCell raw accesses: blocks calling UnsafeCell::get/raw_get/... or projecting the value field raw"""
        out = []
        for i, blk in enumerate(body.blocks):
            n = body.callee(i)
            nm = n["n"] if n else None
            if nm and nm.startswith("core::cell::UnsafeCell") and short(nm) in ("get", "raw_get", "as_ref_unchecked", "as_mut_unchecked", "get_mut", "replace"):
                if self._mine(body, i):
                    out.append((i, short(nm)))
            for s in blk[0]:
                if s[0] == "=" and s[2][0] == "cast" and "Ptr" in s[2][1] and len(s[2]) > 4:
                    tys = body.frames[blk[2]]["tys"]
                    if "UnsafeCell<" in tys[s[2][4]].s and self._mine(body, i):
                        out.append((i, "cast"))
        return out


def reach(edges, start, stop=()):
    seen = set()
    st = [start]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in stop:
            continue
        st.extend(edges.get(b, ()))
    return seen


def edge_map(it):
    m = {}
    for a, b in it.live_edges:
        m.setdefault(a, []).append(b)
    return m


def terminals(body, blocks, start):
    """(returns, diverging calls) among blocks"""
    r, d = [], []
    for b in blocks:
        t = body.blocks[b][1]
        if t[0] == "ret":
            r.append(b)
        elif t[0] == "call" and t[4] is None:
            d.append(b)
    return r, d


def judgements(lock, body, o):
    for x, v, w in lock.triples():
        for c, op, y, em in lock.judged(body, x, o, v, w):
            yield x, v, w, em, c, op, y


def analyse(ctx, lock, R):
    """R: rule-id prefix. Returns derived encoding."""
    prog = ctx.prog
    excl_guards = [g for g, m in lock.guards.items() if m == "excl"]
    free, excl = None, None
    acq = []   # (root fn, body, guard mode, guard site)
    infos = []
    for f in lock.roots():
        body = lock.body(f)
        st_ops = set()
        runs = {}
        # discover ops
        it0, ops0 = lock.run(body, lock.reps[0])
        for x in lock.reps:
            it, ops = lock.run(body, x)
            st_ops |= set(lock.group(body, o) for o in ops)
        gs = lock.guard_sites(body)
        cs = lock.cell_sites(body)
        selfty = f["lt"][1] if f["argc"] else None
        infos.append((f, body, sorted(st_ops), gs, cs, selfty))
    # derive encoding from the exclusive acquisitions
    pairs = set()
    for f, body, ops, gs, cs, selfty in infos:
        for g, adt in gs.items():
            if lock.guards[adt] != "excl":
                continue
            for o in ops:
                for x in lock.reps:
                    for c, op, y, em in lock.judged(body, x, o, x, x):
                        if g in reach(em, c) and y != x and y != "?":
                            pairs.add((x, y))
    base = [p for p in pairs]
    # constructors
    inits = []
    for f, body, ops, gs, cs, selfty in infos:
        it = Interp(body)
        for bb, blk in enumerate(body.blocks):
            if bb not in it.reached:
                continue
            for s in blk[0]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == lock.cell["n"]:
                    names = s[2][1][4]
                    # value of the state field at this point: re-evaluate operands in the block's final state
                    st = dict(it.instate[bb])
                    it._transfer(bb, st)
                    root, path = it.place(st, s[1])
                    v = it.rd(st, root, path)
                    v = it.proj(st, v, lock.state)
                    inits.append((f, bb, body, v))
    vals = set()
    for f, bb, body, v in inits:
        if is_t(v, "call") and is_atomic_call(v[1]) and short(v[1]) in ("new", "from") and is_t(v[3][0], "int"):
            vals.add(v[3][0][1])
        elif is_t(v, "call") and short(base_name(v[1])) == "default":
            vals.add(0)
        else:
            ctx.bad(R + "init", f["n"], "cell built with a state word that is not a fresh constant (%r)" % (v,), body.where(bb))
    if len(vals) == 1:
        free = vals.pop()
        for f, bb, body, v in inits:
            ctx.ok(R + "init", "%s: state := %d" % (f["n"], free))
    else:
        ctx.bad(R + "init", "free", "constructors initialise the state word to different values %s" % sorted(vals))
        return None
    legal = [p for p in pairs if p[0] == free]
    if len(set(y for _, y in legal)) != 1 or len(pairs) != 1:
        ctx.bad(R + "excl", "encoding", "an exclusive guard is reachable from state transitions %s; only one transition, from the freshly constructed state %d, may grant it"
                % (sorted(pairs), free))
        if not legal:
            return None
    excl = sorted(legal)[0][1]
    has_shared = "shared" in lock.guards.values()
    told = set()
    shared = [x for x in lock.reps if x not in (free, excl)] if has_shared else []
    nx = lambda x: x + 1
    H = U // 2
    for f, body, ops, gs, cs, selfty in infos:
        name = f["n"]
        selfadt = selfty.peel().p if selfty is not None and selfty.peel().k == "adt" else None
        is_guard_self = selfadt in lock.guards
        excl_self = selfadt == lock.cell["n"] and (selfty.k != "ref" or selfty.m)
        is_drop = f.get("trait") == "core::ops::drop::Drop" and is_guard_self
        # releases
        if is_drop:
            mode = lock.guards[selfadt]
            held = [excl] if mode == "excl" else [x for x in lock.reps if x > free and x <= H]
            good = True
            for x, v in lock.pairs(held):
                it, res = lock.run(body, x, v=v)
                em = edge_map(it)
                eff = {o: y for o, (op, y) in res.items() if y != x and op.m != "load"}
                want = free if mode == "excl" else x - 1
                for o, y in eff.items():
                    if y != want:
                        good = False
                        ctx.bad(R + "release", name, "releasing a %s guard takes the state from %d to %s instead of %d" % (mode, x, y, want), body.where(o))
                    op = res[o][0]
                    ords = [ordering(a) for a in op.args if ordering(a)]
                    if not ords or ords[0] not in REL:
                        good = False
                        ctx.bad(R + "order", name, "the releasing operation uses ordering %s: writes made under the guard may not be visible to the next holder" % (ords[:1],), body.where(o))
                # every path crosses exactly one effective op
                rb = reach(em, 0, stop=set(eff))
                rets, _ = terminals(body, rb, 0)
                rets = [r for r in rets if r not in eff]
                if rets and (v == x or eff):
                    good = False
                    ctx.bad(R + "release", name + "#missed", "a path through the guard's drop returns without releasing (state %d)" % x, body.where(rets[0]))
                for o in eff:
                    for s in em.get(o, ()):
                        if reach(em, s) & set(eff):
                            good = False
                            ctx.bad(R + "release", name + "#double", "a path through the guard's drop releases more than once (state %d)" % x, body.where(o))
            # the released word must be reached from self
            if good:
                ctx.ok(R + "release", "%s releases on every path, states %s" % (name, held))
            continue
        # acquisitions: each guard site needs an admitting op
        doms = None
        for g, adt in gs.items():
            mode = lock.guards[adt]
            cand = None
            why = []
            for o in ops:
                okx, badx = [], []
                leak = []
                unknown = False
                grp = set(lock.copies(body, o))
                gg = [k for k in gs if lock.group(body, k) == lock.group(body, g)]
                for x, v, w in lock.triples():
                    for c, op, y, em in lock.judged(body, x, o, v, w):
                        if op.m == "load":
                            unknown = True
                            break
                        # o must dominate g: g unreachable when o is removed
                        if any(k not in grp and k in reach(em, 0, stop=grp) for k in gg):
                            unknown = True
                            why.append("operation at %s does not dominate the guard" % body.where(o))
                            break
                        if y == "?":
                            badx.append((x, "?"))
                            continue
                        after = set()
                        for s in em.get(c, ()):
                            after |= reach(em, s, stop=grp)
                        if any(k in after for k in gg):
                            legalx = (x == free and y == excl) if mode == "excl" else (x != excl and x < H and y == nx(x))
                            (okx if legalx else badx).append((x, y))
                    if unknown:
                        break
                if unknown or (not okx and not badx):
                    continue
                if badx:
                    why.append("at state %s the operation leads to %s and the guard is still handed out" % (badx[0][0], badx[0][1]))
                    continue
                need = [free] if mode == "excl" else [free, free + 1]
                if [x for x, _ in okx] and all(any(x == n for x, _ in okx) for n in need):
                    cand = o
                    break
                why.append("guard not obtainable from states %s" % need)
            if cand is None:
                ctx.bad(R + "acquire", "%s->%s" % (name, short(adt)), "a %s guard is handed out without a successful acquiring transition: %s" % (mode, "; ".join(why) or "no atomic operation admits it"), body.where(g))
            else:
                it, res = lock.run(body, free)
                op = lock.judged(body, free, cand, free, free)[0][1]
                ords = [ordering(a) for a in op.args if ordering(a)]
                fence = any(c["name"] and c["name"].endswith("atomic::fence") and ordering(c["args"][0]) in ACQ for c in it.calls.values())
                if not ords or (ords[0] not in ACQ and not fence):
                    ctx.bad(R + "order", name, "the acquiring operation uses ordering %s: the previous holder's writes need not be visible" % ords[:1], body.where(cand))
                else:
                    ctx.ok(R + "order", "%s acquires with %s" % (name, ords[0]))
                ctx.ok(R + "acquire", "%s -> %s guard" % (name, mode))
                acq.append((name, mode))
        # transitions outside their role
        for o in ops:
            for x, v, w, em, c, op, y in judgements(lock, body, o):
                if op.m == "load":
                    continue
                if y == "?":
                    ctx.bad(R + "transition", name + "#unknown", "an atomic update of the state word whose effect cannot be determined", body.where(o))
                    continue
                if y == x:
                    continue
                if x == excl:
                    ctx.bad(R + "transition", name + "#from-excl", "an operation outside the exclusive guard's release moves the state from %d (exclusively held) to %s: another thread can then take the cell" % (x, y), body.where(o))
                    continue
                after = set()
                for s in em.get(c, ()):
                    after |= reach(em, s, stop=set(gs))
                modes = set(lock.guards[gs[g]] for g in gs if g in after)
                legalx = ("excl" in modes and x == free and y == excl) or ("shared" in modes and x < H and y == nx(x))
                if not legalx:
                    ctx.bad(R + "transition", name + "#%s" % ("acquire" if y != x else ""), "the state word moves from %s to %s without handing out the matching guard" % (x, y), body.where(o))
                    continue
                stop = set(gs)
                aft = set()
                for s in em.get(c, ()):
                    aft |= reach(em, s, stop=stop)
                rets, div = terminals(body, aft - stop, o)
                if rets or div:
                    ctx.bad(R + "leak", name, "after moving the state from %d to %d a path ends without constructing the guard that would release it" % (x, y), body.where((rets + div)[0]))
                elif (name, x, y) not in told:
                    told.add((name, x, y))
                    ctx.ok(R + "transition", "%s: %d -> %d" % (name, x, y))
        # raw access to the protected value
        for b, m in cs:
            if is_guard_self or excl_self:
                # access through a guard must go to the guard's own cell
                ctx.ok(R + "access", "%s: %s behind a guard/exclusive borrow" % (name, m))
                continue
            it = Interp(body)
            if b not in it.reached:
                continue
            admitted = False
            for o in ops:
                bad = False
                seen = False
                grp = set(lock.copies(body, o))
                for x, v, w in lock.triples():
                    for c, op, y, em in lock.judged(body, x, o, v, w):
                        if op.m == "load" or b in reach(em, 0, stop=grp):
                            bad = True
                            break
                        after = set()
                        for s in em.get(c, ()):
                            after |= reach(em, s, stop=grp)
                        if b in after:
                            seen = True
                            if y == x or y == "?" or x == excl:
                                bad = True
                                break
                    if bad:
                        break
                if seen and not bad:
                    admitted = True
                    break
            ctx.check(admitted, R + "access", "%s#%s" % (name, m), "the protected value is reached without holding the lock", body.where(b))
    # unlock helpers reachable from outside: covered because every pub fn is a root
    for n, ty, vis in lock.cell["v"][0]["f"]:
        ctx.check(not vis, R + "private", lock.cell["n"] + "." + n, "field is public: callers can bypass the protocol")
    for g in lock.guards:
        for n, ty, vis in prog.adts[g]["v"][0]["f"]:
            ctx.check(not vis, R + "private", g + "." + n, "field is public: callers can forge or redirect the guard")
        d = [i for i in prog.impl_index.get("core::ops::drop::Drop", ()) if i["selfty"].p == g]
        ctx.check(len(d) == 1, R + "hasdrop", g, "guard type has no Drop implementation: the lock is never released")
        for tr in ("core::clone::Clone", "core::marker::Copy"):
            if any(i["selfty"].p == g for i in prog.impl_index.get(tr, ())):
                ctx.bad(R + "hasdrop", g + "#" + short(tr), "guard type is duplicable")
    return {"free": free, "excl": excl, "acq": acq}
