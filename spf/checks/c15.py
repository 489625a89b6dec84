"""Ring elements: canonical constructors, exact reduction, operator forms, derived constants, serialization."""
import re
from .. import tables as T
from ..algebra import Alg, Render, Inliner, is_t, short
from ..simd import guard_strs

ASSUMES = ["crypto-bigint, num and subtle compute what their names say",
           "the reviewed formulas in /verif/spec state the intended results"]
M = "sunscreen_math_macros::"
MOD = "dc(get_modulus(dc(from_derive_input(dc(parse(arg1), Ok).0), Ok).0.modulus), Ok).0"
LIMBS = "dc(from_derive_input(dc(parse(arg1), Ok).0), Ok).0.num_limbs"
Q = "div(2^(64*n), m)"
WANT = {"MODULUS": ["m"], "MODULUS_DIV_2": ["div(m, 2)"], "R": [Q],
        "S": ["-2^(64*n)*%s + div(2^(128*n), m)" % Q, "div(2^(64*n)*rem(2^(64*n), m), m)"],
        "T": ["2^(64*n) + -m*%s" % Q, "rem(2^(64*n), m)"]}


def norm(s):
    s = s.replace(MOD, "m").replace(LIMBS, "n").replace("*dc(1, Some).0", "").replace("dc(1, Some).0", "1")
    return " + ".join(sorted(s.split(" + "), key=lambda x: x.lstrip("-"))) if "(" not in re.sub(r"\([^()]*\)", "", re.sub(r"\([^()]*\)", "", s)) else s


def derive(ctx):
    prog = ctx.prog
    f = ctx.anchor(M + "derive_barrett_config", "derive")
    if f is None:
        return
    b = Inliner(prog, lambda g, c, bb_, bb: g["n"].startswith(M) and g["n"] not in (M + "get_modulus", M + "emit_limbs"), max_depth=20).build(f)
    al = Alg(b, {}, prog=prog)
    al.prog, al.policy, al.cldepth = prog, None, 0
    name = None
    got = {}
    for bb in al.order:
        rec = al.calls.get(bb)
        if not rec:
            continue
        s = short(rec["bn"])
        if s.startswith("push_ident"):
            for a in rec["args"]:
                if is_t(a, "str"):
                    name = a[1]
                    last = name if name in WANT else None if name in ("impl", "const") else "keep"
                    if last != "keep":
                        cur = last
        elif s == "to_tokens" and rec["args"]:
            a = rec["args"][0]
            v = al.rd(al.exit_state, *al.deref_place(a)) if is_t(a, "ref") else a
            if is_t(v, "call") and v[1] == M + "emit_limbs":
                R = Render(al, {}, {})
                got.setdefault(cur, []).append(tuple(norm(R.s(al.val(al.exit_state, x))) for x in v[3]))
    w = T.where(f)
    for k, forms in WANT.items():
        g = got.get(k)
        if not g:
            ctx.bad("derive", k, "the derived configuration defines no limbs for %s" % k, w)
            continue
        for v, n in g:
            ctx.check(any(norm(x) == v for x in forms) and n == "n", "derive", k, "the derived configuration's %s is %s over %s limbs; required %s over the configured number" % (k, v, n, forms[0]), w, "%s = %s" % (k, v))
    gs = [norm(x) for x in guard_strs(al, {}, M + "emit_limbs")]
    top = ("upd(vec<0..n => I: 0>; [-1 + n] := 9223372036854775808)", "2^(-1 + 64*n)", "2^(64*n + -1)")
    ok = any(x in gs for t in top for x in ("!(lt(%s, m))" % t, "lt(m, %s)" % t, "m <= " + t, "m < " + t))
    ctx.check(ok, "derive", "bound", "limbs are emitted without the modulus having been compared with the largest one the reduction handles (conditions: %s)" % gs, w)


def run(ctx):
    ctx.rule("formula", "each ring function's outputs equal the required formula (every constructor reduces or range-checks; operators go through the backend; owned, borrowed and mixed forms agree)")
    ctx.rule("requires", "conditions insisted on stay insisted on")
    ctx.rule("derive", "the constants the derive macro emits are the ones the reduction formula needs, and it refuses moduli the reduction cannot handle")
    es = T.select(["smath"], ["::ring::", "^<u[0-9]+ as sunscreen_math::", "::Field>::inverse", "math_macros::"], ["poly::"])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    derive(ctx)
    ctx.floor("formula", 60)
    ctx.floor("derive", 6)
