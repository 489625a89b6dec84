"""Scratch memory: each buffer is exclusive, aligned and long enough, freed storage is never handed out, and only plain data may live in it."""
import os
from .. import tables as T, facts as F
from ..mir import Inliner, succs, callee_of
from ..witness import compile_one, rmeta

ASSUMES = ["the element-formula engine models the standard library's containers faithfully",
           "aligned_vec honours the alignment it is asked for", "std::slice::from_raw_parts is sound for an aligned pointer to enough initialised bytes"]
PLAIN = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"}
CR = "sunscreen_tfhe"

HEAD = """#![allow(dead_code, unused)]
use sunscreen_tfhe::{Torus, TorusOps};
#[path = "%s"] mod scratch;
use scratch::*;
fn send<T: Send>() {} fn sync<T: Sync>() {} fn clone<T: Clone>() {}
pub fn f() { %s }
"""
A = "let mut b = allocate_scratch::<u64>(4); "
W = [
    ("buffer-not-send", "send::<ScratchBuffer<'static, u64>>();", "send::<&'static mut [u64]>();", ["E0277"]),
    ("buffer-not-sync", "sync::<ScratchBuffer<'static, u64>>();", "sync::<&'static mut [u64]>();", ["E0277"]),
    ("buffer-not-clone", "clone::<ScratchBuffer<'static, u64>>();", "clone::<&'static [u64]>();", ["E0277"]),
    ("slice-outlives-buffer", "let s: &mut [u64]; { " + A + "s = b.as_mut_slice(); } s[0] = 1;", A + "let s: &mut [u64] = b.as_mut_slice(); s[0] = 1;", ["E0597"]),
    ("two-exclusive-slices", A + "let x = b.as_mut_slice(); let y = b.as_mut_slice(); x[0] = 1; y[0] = 1;", A + "let x = b.as_mut_slice(); x[0] = 1; let y = b.as_mut_slice(); y[0] = 1;", ["E0499"]),
    ("shared-and-exclusive", A + "let x = b.as_slice(); let y = b.as_mut_slice(); y[0] = x[0];", A + "let x = b.as_slice()[0]; let y = b.as_mut_slice(); y[0] = x;", ["E0502"]),
    ("shared-is-readonly", A + "b.as_slice()[0] = 1;", A + "b.as_mut_slice()[0] = 1;", ["E0594"]),
    ("move-while-borrowed", A + "let x = b.as_mut_slice(); drop(b); x[0] = 1;", A + "let x = b.as_mut_slice(); x[0] = 1; drop(b);", ["E0505"]),
    ("storage-private", A + "let p = b.allocation;", A + "let p = b.as_slice().as_ptr();", ["E0616"]),
] + [("no-scratch-of-" + n, "let b = allocate_scratch::<%s>(1);" % ty, "let b = allocate_scratch::<u8>(1);", ["E0277"])
     for n, ty in (("bool", "bool"), ("char", "char"), ("reference", "&'static u8"), ("box", "Box<u8>"), ("vec", "Vec<u8>"), ("option", "Option<u8>"), ("nonzero", "std::num::NonZeroU8"), ("string", "String"))]


def run(ctx):
    ctx.rule("formula", "allocating, viewing and returning a scratch buffer compute what is required: reused only if aligned and long enough, otherwise new; viewed at its requested length; returned to its pool once")
    ctx.rule("freed", "no path hands out the storage it has just taken back for destruction")
    ctx.rule("plain", "only types for which every bit pattern is a value may be placed in scratch memory")
    ctx.rule("made", "buffers are made only by the allocator, and their storage pointer is read only by the buffer's own methods")
    ctx.rule("witness", "programs that would share, outlive or alias scratch memory are rejected by the type checker, their legal twins compile")
    es = T.select(["scratch"], ["::scratch::"], [])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 5)
    prog = ctx.prog
    # freed storage: from where a box takes the storage back, a return is reached only past a new allocation
    for f in sorted(prog.fns.values(), key=lambda f: f["n"]):
        if f["crate"] != CR or "::scratch::" not in f["n"] or f["kind"] == "closure":
            continue
        b = Inliner(prog, lambda g, c, bb_, bb: g["crate"] == CR).build(f)
        def calls(n):
            return [i for i, bl in enumerate(b.blocks) if bl[1][0] == "call" and (callee_of(bl[1]) or {}).get("n", "").rsplit("::", 1)[-1] == n]
        new = set(calls("into_raw")) | set(calls("leak"))
        for s in calls("from_raw") + calls("drop_in_place") + calls("dealloc"):
            seen, todo, hit = set(), [x for x in succs(b.blocks[s][1])], False
            while todo:
                x = todo.pop()
                if x in seen or x in new:
                    continue
                seen.add(x)
                if b.blocks[x][1][0] == "ret":
                    hit = True
                todo += succs(b.blocks[x][1])
            ctx.check(not hit, "freed", f["n"], "`%s` can return after destroying storage without having made new storage" % f["n"], f.get("file", ""), f["n"])
    ctx.floor("freed", 1)
    # implementations of the plain-data marker
    n = 0
    for i in prog.impls:
        if (i.get("trait") or "") != "sunscreen_tfhe::scratch::Pod":
            continue
        n += 1
        t = i["selfty"]
        ok = t.k == "prim" and t.s in PLAIN or t.k == "adt" and (
            t.p == "num_complex::Complex" and any("num_traits::float::Float" in p or "Float" in p for p in i["preds"]) or
            t.p == "sunscreen_tfhe::math::torus::Torus" and any("TorusOps" in p for p in i["preds"]))
        ctx.check(ok, "plain", t.s, "`unsafe impl Pod for %s`: not a type for which every bit pattern is a value" % t.s, "sunscreen_tfhe", t.s)
    ctx.check(n >= 12, "plain", "count", "fewer plain-data implementations than confirmed by hand", "sunscreen_tfhe")
    # who makes a buffer, and who touches its storage pointer
    for f in sorted(prog.fns.values(), key=lambda f: f["n"]):
        if f["crate"] != CR:
            continue
        s = str(f["blocks"])
        if "scratch::ScratchBuffer" in s and "'adt', 'sunscreen_tfhe::scratch::ScratchBuffer'" in s.replace('"', "'"):
            ctx.check("::scratch::" in f["n"], "made", f["n"], "`%s` makes a scratch buffer without the allocator" % f["n"], f.get("file", ""), f["n"])
    fl = [f for f in prog.fns.values() if f["n"].endswith("scratch::Scratch::allocate")] or [f for f in prog.fns.values() if f["n"].endswith("scratch::allocate_scratch")]
    path = None
    for f in fl:
        fn = f.get("file") or ""
        path = fn if os.path.isabs(fn) else os.path.join(F.REPO, fn)
    if not path or not os.path.exists(path):
        ctx.notes.append("witness: the scratch module's source file was not located; type-level witnesses not decided")
        return
    ext = []
    for c in ("aligned_vec", "num", "rustfft"):
        m = rmeta(c)
        if m:
            ext += ["--extern", "%s=%s" % (c, m)]
    ok, _, out = compile_one(CR, HEAD % (path, A), ext)
    if not ok:
        ctx.notes.append("witness: the scratch module does not stand alone any more; type-level witnesses not decided")
        return
    from concurrent.futures import ThreadPoolExecutor

    def one(w):
        name, bad, good, codes = w
        okg, _, outg = compile_one(CR, HEAD % (path, good), ext)
        okb, got, outb = compile_one(CR, HEAD % (path, bad), ext)
        return name, okg, outg, okb, got, outb, codes, bad
    with ThreadPoolExecutor(8) as ex:
        for name, okg, outg, okb, got, outb, codes, bad in ex.map(one, W):
            if not okg:
                ctx.notes.append("witness %s: the legal twin does not type-check; not decided" % name)
            elif okb:
                ctx.bad("witness", name, "a program that must be rejected type-checks: " + bad, path)
            elif not (got & set(codes)):
                ctx.notes.append("witness %s: rejected for another reason %s; not decided" % (name, sorted(got)))
            else:
                ctx.ok("witness", "%s rejected with %s" % (name, sorted(got & set(codes))))
