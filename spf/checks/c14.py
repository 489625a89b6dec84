"""Nothing secret is printed: output sinks, formatted operands and panic messages of the library code."""
import re
from ..mir import callee_name, callee_of

ASSUMES = ["functions of other crates print nothing beyond what they are handed, and only when their name says so (std::io, std::fs, std::net, std::process, std::os, log, tracing, libc)",
           "a number of items, a dimension, a parameter, an index or an operation name is not secret"]

SINK = re.compile(r"^(std::io::|std::fs::|std::net::|std::process::(?!abort|exit)|std::os::|std::env::set_var|libc::|rustix::|nix::|tracing|syslog|std::panic::panic_any)")
LOG = re.compile(r"^(log::__private_api::log|log::logger|log::Log::log)")
FMT = re.compile(r"fmt::rt::Argument::new_|core::panicking::assert_failed$|core::panicking::panic_display")
UNWRAP = re.compile(r"^core::result::Result::(unwrap|expect|unwrap_err|expect_err)$")
# the types a message may show: sizes, indices, names, errors, operations and parameters
PUBLIC = re.compile(r"^(&|mut )*(usize|bool|str|u8|u16|u32|std::string::String|std::alloc::Layout\w*|std::fmt::Arguments.*|std::backtrace::Backtrace|fhe_circuit::(FheEdge|FheOp)|std::vec::Vec<fhe_circuit::FheEdge>"
                    r"|.*\b(Error|ErrorKind)(<.*>)?(>|\))*|params::\w+|mux_circuits::.*|crypto::ciphertext::CiphertextType|petgraph::.*|std::option::Option<petgraph::.*"
                    r"|entities::\S*(LookupTable)\S*)$")
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize"}
SAFE_ERR = re.compile(r"(Error|ErrorKind)(<.*)?>*$|^&?(str|std::string::String)$|^!$|^std::convert::Infallible$|^\(\)$|PoisonError|^E$|::Error$|Layout|std::array::TryFromSlice|Infallible|^std::vec::Vec<.*petgraph|Bdd|GlweCiphertext|AtomicRefCell|^usize$|^std::ffi::OsString$|VarError")
CRYPTO = ("sunscreen_tfhe", "parasol_concurrency", "parasol_runtime")


def places(x):
    """the places read by an operand or rvalue"""
    out = []
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, (list, tuple)):
            if len(y) == 2 and y[0] in ("c", "m") and isinstance(y[1], (list, tuple)):
                out.append(y[1])
            elif len(y) >= 2 and y[0] in ("ref", "rawptr", "len", "discr", "addr") and isinstance(y[-1], (list, tuple)) and y[-1] and isinstance(y[-1][0], int):
                out.append(y[-1])
            else:
                st.extend(y)
    return out


class Slice:
    """backward slice of a local inside one function"""

    def __init__(self, f):
        self.f, self.defs = f, {}
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append(("=", s[2], s[1]))
            t = b["t"]
            if t[0] == "call" and t[3]:
                self.defs.setdefault(t[3][0], []).append(("call", t, t[3]))

    def leaks(self, local):
        """reasons why the value might hold message or key material: a conversion out of a non-index number, a random draw"""
        seen, st, out = set(), [local], []
        lt = self.f["lt"]
        while st:
            l = st.pop()
            if l in seen:
                continue
            seen.add(l)
            for kind, v, dst in self.defs.get(l, ()):
                if kind == "call":
                    n = callee_name(v) or ""
                    last = n.rsplit("::", 1)[-1]
                    if last in ("len", "size", "count", "count_ones", "size_of", "align_of", "ilog2", "as_lwe_def"):
                        continue
                    if re.search(r"::rand|Rng|Torus|to_u64|inner$|decode", n) and not re.search(r"params", n):
                        out.append("result of " + n)
                        continue
                    for a in v[2]:
                        for pl in places(a):
                            st.append(pl[0])
                    continue
                for pl in places(v):
                    root = lt[pl[0]].peel()
                    idx = any(isinstance(e, (list, tuple)) and e and e[0] in ("i", "ci", "idx", "sub") for e in pl[1:])
                    if secret_ty(root.s) and idx:
                        out.append("element of " + root.s)
                    st.append(pl[0])
        for l in sorted(seen):
            if 1 <= l <= self.f["argc"] and secret_scalar(lt[l].peel().s):
                out.append("argument of type " + lt[l].s)
        return out


SECRET = re.compile(r"SecretKey|OneTimePad|Randomness|math::torus::Torus|entities::polynomial::Polynomial|entities::polynomial_fft|Complex<")


def secret_ty(s):
    return bool(SECRET.search(s)) or s in ("[S]", "[T]", "[u64]", "[i64]", "[f64]")


def secret_scalar(s):
    return s in ("S", "T", "u64", "i64", "u128", "i128", "f64") or bool(re.match(r"math::torus::Torus|entities::polynomial", s))


def run(ctx):
    ctx.rule("sink", "no library function outside the benchmark reporter writes to a stream, file, socket, process or environment variable; logging appears only in the listed crates")
    ctx.rule("operand", "everything shown by a message (format operands, assertion operands, unwrapped errors) has a public type, and a number shown does not come from message, key or random material")
    ctx.rule("error", "no error type carries a key, polynomial, torus element or random material")
    p = ctx.prog
    nfn = 0
    for key, f in sorted(p.fns.items()):
        crate = f["crate"]
        if "/tests/" in f.get("file", "") or f.get("ctfe") or f["n"].startswith("benchmark_system_info"):
            continue
        nfn += 1
        n = f["n"]
        is_fmt = "core::fmt::" in n
        sl = None
        for b in f["blocks"]:
            t = b["t"]
            if t[0] != "call":
                continue
            c = callee_of(t)
            m = callee_name(t)
            if c is None or m is None:
                continue
            where = "%s:%s" % (f.get("file"), t[6] if len(t) > 6 else f.get("line"))
            if SINK.match(c["n"]) or SINK.match(m):
                if crate == "parasol_cpu" and m.startswith(("std::fs::read", "std::fs::File::open", "std::io::Read")):
                    continue
                ctx.bad("sink", "%s->%s" % (n, m), "%s writes outside the process: %s" % (n, m), where)
            elif LOG.match(m):
                ctx.check(crate not in ("sunscreen_tfhe", "parasol_concurrency"), "sink", "%s->%s" % (n, m), "%s logs (%s)" % (n, m), where, "%s logs public operands only" % n)
            if crate not in CRYPTO or is_fmt:
                continue
            tys = [f["tys"][a] for a in c.get("ga", ())]
            if FMT.search(m):
                ops = t[2][:1] if "assert_failed" not in m else t[2][1:3]
                for ty, op in zip(tys, ops):
                    s = ty.peel().s
                    what = "%s shows a %s" % (n, s)
                    if PUBLIC.match(s) or s in INTS or s == "f64" or crate == "parasol_runtime" and s.startswith("std::sync::mpmc::SendError<std::option::Option<circuit_processor"):
                        lk = []
                        if s in INTS or s == "f64" or s == "bool":
                            sl = sl or Slice(f)
                            for pl in places(op):
                                lk += sl.leaks(pl[0])
                        if s in ("u64", "i64", "f64", "u128", "i128") and "fmt" in m and crate == "sunscreen_tfhe" and re.search(r"::(encryption|keyswitch|keygen|automorphisms|homomorphisms|fft_ops|ciphertext)::", n):
                            lk.append("a %s in an operation on secrets" % s)
                        lk = [x for x in lk if not re.search(r"generate_(negacyclic_)?lut", n) or "random" in x]
                        ctx.check(not lk, "operand", "%s:%s" % (n, s), "%s shows a %s that may be message or key material (%s)" % (n, s, "; ".join(sorted(set(lk))[:3])), where, what)
                    else:
                        ctx.bad("operand", "%s:%s" % (n, s), "%s shows a value of type %s in a message" % (n, s), where)
            elif UNWRAP.match(m) and len(tys) == 2:
                ty = tys[0] if m.endswith("_err") else tys[1]
                ctx.check(bool(SAFE_ERR.search(ty.peel().s)) and not SECRET.search(ty.s), "operand", "%s:unwrap:%s" % (n, ty.s), "%s panics showing a %s" % (n, ty.s), where, "%s may show an error %s" % (n, ty.s))
    for k, a in sorted(p.adts.items()):
        nm = a.get("n") or k
        if not nm.endswith("Error") or not nm.startswith(("sunscreen_tfhe", "parasol_", "sunscreen_math")):
            continue
        fields = [fl for v in a.get("variants", a.get("v", ())) for fl in field_types(v)]
        badf = [x for x in fields if SECRET.search(x) or re.search(r"\[(S|T|u64|i64|f64)", x)]
        ctx.check(not badf, "error", nm, "error type %s carries %s" % (nm, badf), "", "%s carries only %s" % (nm, sorted(set(fields))[:4]))
    ctx.ok("sink", "%d library functions contain no output call beyond those listed" % nfn)
    ctx.floor("sink", 5)
    ctx.floor("operand", 150)
    ctx.floor("error", 3)


def field_types(v):
    out = []
    st = [v]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            st.extend(y.values())
        elif isinstance(y, (list, tuple)):
            st.extend(y)
        elif hasattr(y, "s"):
            out.append(y.s)
    return out
