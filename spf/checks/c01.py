"""Typestate of the shared-cell borrow state: transition relations of every atomic operation, admission of every guard,
release on every drop path, orderings, and who may touch the protected value."""
from ..locks import Lock, analyse, U

LEVEL = "other"
CELL, WORD, ID = "AtomicRefCell", "usize", "C01"
REPS = [0, 1, 2, 3, 1000, U // 2 - 1, U // 2, U // 2 + 1, U - 1, U]
RULES = {
    "init": "every constructor (including Clone and Deserialize) starts the state word at the one 'free' constant",
    "excl": "exactly one state transition can hand out an exclusive guard",
    "acquire": "every guard construction is dominated by an atomic operation whose transition, for every state value that lets control reach the guard, is the acquiring one",
    "transition": "no atomic operation outside a guard's drop changes the state other than free->exclusive or n->n+1 together with the matching guard; nothing leaves the exclusive state",
    "leak": "once the state is moved, every path constructs the guard",
    "release": "dropping a guard performs exactly one inverse transition on every path",
    "order": "acquiring operations carry Acquire, releasing operations Release",
    "access": "the protected value is reached only under an admitted guard, through a guard, or through exclusive ownership",
    "private": "cell and guard fields are private", "hasdrop": "guards have one Drop and are not duplicable",
}


def locks_of(ctx, cellname, word, reps):
    prog = ctx.prog
    cell = prog.adts.get("parasol_concurrency::" + cellname)
    if cell is None:
        ctx.bad("anchor", cellname, "type not found")
        return None
    state = [n for n, t, v in cell["v"][0]["f"] if t.p == "core::sync::atomic::Atomic" and any(a.s == word for a in t.a)]
    val = [n for n, t, v in cell["v"][0]["f"] if t.p == "core::cell::UnsafeCell"]
    if len(state) != 1 or len(val) != 1:
        ctx.bad("anchor", cellname + "-fields", "expected one Atomic<%s> state word and one UnsafeCell, found %s / %s" % (word, state, val))
        return None
    guards = {}
    for n, a in prog.adts.items():
        if a["crate"] != "parasol_concurrency" or n == cell["n"]:
            continue
        tys = [t for _, t, _ in a["v"][0]["f"]]
        link = any(t.k in ("ref", "ptr") and ((t.a[0].p == "core::sync::atomic::Atomic" and any(x.s == word for x in t.a[0].a)) or t.a[0].p == cell["n"]) for t in tys)
        if link:
            m = any(i["selfty"].p == n for i in prog.impl_index.get("core::ops::deref::DerefMut", ()))
            guards[n] = "excl" if m else "shared"
    return Lock(ctx, cell, state[0], val[0], word, guards, reps)


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    lk = locks_of(ctx, CELL, WORD, REPS)
    if lk is None:
        return
    r = analyse(ctx, lk, "")
    if r:
        modes = [m for _, m in r["acq"]]
        if "excl" not in modes:
            ctx.bad("acquire", "floor-excl", "no function hands out an exclusive guard")
        if "shared" not in modes:
            ctx.bad("acquire", "floor-shared", "no function hands out a shared guard")
    ctx.floor("init", 2)
    ctx.floor("acquire", 2)
    ctx.floor("release", 2)
    ctx.floor("order", 2)
    ctx.floor("access", 2)
    ctx.floor("private", 6)
