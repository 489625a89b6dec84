"""Thread-safety markers: predicates of every unsafe Send/Sync implementation, plus compile-fail witnesses (each with a
compiling twin) checked against the crate metadata of the current tree."""
from ..witness import witness

LEVEL = "other"
CR = "parasol_concurrency"
PRE = "use parasol_concurrency::*; use std::cell::{Cell, RefCell}; use std::rc::Rc; use std::sync::{Mutex, MutexGuard};\nfn send<T: Send>() {} fn sync<T: Sync>() {}\n"
NOTSEND_SYNC = "MutexGuard<'static, u32>"   # Sync, not Send
SEND_NOTSYNC = "Cell<u32>"                  # Send, not Sync
NEITHER = "Rc<u32>"


def t(body):
    return PRE + "pub fn f() { %s }" % body


# name, bad, good, codes
W = []


def tr(name, fn, bad, good):
    W.append((name, t("%s::<%s>();" % (fn, bad)), t("%s::<%s>();" % (fn, good)), ["E0277"]))


tr("cell-sync-needs-sync", "sync", "AtomicRefCell<%s>" % SEND_NOTSYNC, "AtomicRefCell<u32>")
tr("cell-sync-needs-send", "sync", "AtomicRefCell<%s>" % NOTSEND_SYNC, "AtomicRefCell<u32>")
tr("cell-send-needs-send", "send", "AtomicRefCell<%s>" % NEITHER, "AtomicRefCell<%s>" % SEND_NOTSYNC)
tr("cell-ref-send", "send", "Ref<'static, %s>" % SEND_NOTSYNC, "Ref<'static, u32>")
tr("cell-ref-sync", "sync", "Ref<'static, %s>" % SEND_NOTSYNC, "Ref<'static, u32>")
tr("cell-refmut-send", "send", "RefMut<'static, %s>" % NOTSEND_SYNC, "RefMut<'static, u32>")
tr("cell-refmut-sync", "sync", "RefMut<'static, %s>" % SEND_NOTSYNC, "RefMut<'static, u32>")
tr("spin-sync-needs-send", "sync", "Spinlock<%s>" % NEITHER, "Spinlock<u32>")
tr("spin-sync-needs-send2", "sync", "Spinlock<%s>" % NOTSEND_SYNC, "Spinlock<%s>" % SEND_NOTSYNC)
tr("spin-send-needs-send", "send", "Spinlock<%s>" % NEITHER, "Spinlock<%s>" % SEND_NOTSYNC)
tr("handle-sync-needs-sync", "sync", "SpinlockHandle<'static, %s>" % SEND_NOTSYNC, "SpinlockHandle<'static, u32>")
tr("handle-send-needs-send", "send", "SpinlockHandle<'static, %s>" % NOTSEND_SYNC, "SpinlockHandle<'static, u32>")


def w(name, bad, good, codes):
    W.append((name, t(bad), t(good), codes))


for g, mk in (("borrow", "AtomicRefCell::new(1u32)"), ("borrow_mut", "AtomicRefCell::new(1u32)"), ("lock", "Spinlock::new(1u32)")):
    w(g + "-outlives", "let r; { let c = %s; r = c.%s(); } drop(r);" % (mk, g), "let c; let r; { c = %s; r = c.%s(); } drop(r);" % (mk, g), ["E0597"])
    w(g + "-move-while-held", "let c = %s; let r = c.%s(); drop(c); drop(r);" % (mk, g), "let c = %s; let r = c.%s(); drop(r); drop(c);" % (mk, g), ["E0505"])
    w(g + "-contents-outlive-guard", "let c = %s; let p: &u32; { let r = c.%s(); p = &*r; } println!(\"{}\", p);" % (mk, g),
      "let c = %s; { let r = c.%s(); let p: &u32 = &*r; println!(\"{}\", p); }" % (mk, g), ["E0597"])
    w(g + "-no-clone", "let c = %s; let r = c.%s(); let s: &dyn Fn() -> Box<dyn std::any::Any> = &|| Box::new(0u8); fn k<T: Clone>(_: &T) {} k(&r);" % (mk, g),
      "let c = %s; let r = c.%s(); fn k<T>(_: &T) {} k(&r);" % (mk, g), ["E0277"])
w("shared-guard-readonly", "let c = AtomicRefCell::new(1u32); let mut r = c.borrow(); *r = 2;", "let c = AtomicRefCell::new(1u32); let mut r = c.borrow_mut(); *r = 2;", ["E0594"])
w("state-private", "let c = AtomicRefCell::new(1u32); let _ = &c.state;", "let c = AtomicRefCell::new(1u32); let _ = &c;", ["E0616"])
w("lock-private", "let c = Spinlock::new(1u32); c.unlock();", "let c = Spinlock::new(1u32); let _ = c.try_lock();", ["E0624", "E0599"])


def run(ctx):
    ctx.rule("marker", "every hand-written Send/Sync implementation requires of each type parameter it can move or share between threads the marker that makes this sound")
    ctx.rule("witness", "programs that would share or leak the protected value unsoundly are rejected by the type checker with the expected error, their legal twins compile")
    prog = ctx.prog
    n = 0
    for i in prog.impls:
        tr_ = i.get("trait") or ""
        if tr_ not in ("core::marker::Send", "core::marker::Sync") or i.get("neg"):
            continue
        n += 1
        adt = prog.adts.get(i["selfty"].p)
        params = [a.p for a in i["selfty"].a if a.k == "param"]
        has = lambda p, m: any(x.replace("std::", "core::") == "%s: core::marker::%s" % (p, m) for x in i["preds"])
        ftys = [t for v in adt["v"] for _, t, _ in v["f"]] if adt else []
        for p in params:
            def mentions(t):
                return t.k == "param" and t.p == p or any(mentions(a) for a in t.a)
            if not any(mentions(t) for t in ftys):
                continue
            need = []
            if tr_.endswith("Send"):
                need = ["Send"]
            else:
                own = [t for t in ftys if t.p == "core::cell::UnsafeCell" and mentions(t)]
                guard = [t for t in ftys if t.k in ("ref", "ptr") and mentions(t)]
                if own:
                    need = ["Send"]     # a shared reference can hand the value to another thread
                    # shared read guards additionally share it
                    for g in prog.adts.values():
                        if g["crate"] == adt["crate"] and any(t.k == "ref" and not t.m and t.a[0].k == "param" for v in g["v"] for _, t, _ in v["f"]):
                            # the guard's link: the same atomic word type as the cell's
                            words = [a.s for t in ftys if t.p == "core::sync::atomic::Atomic" for a in t.a]
                            if any(t.k == "ref" and t.a[0].p == "core::sync::atomic::Atomic" and t.a[0].a and t.a[0].a[0].s in words for v in g["v"] for _, t, _ in v["f"]):
                                need = ["Send", "Sync"]
                else:
                    need = ["Sync"]
            for m in need:
                ctx.check(has(p, m), "marker", "%s for %s: %s: %s" % (tr_.split("::")[-1], i["selfty"].p, p, m),
                          "`unsafe impl %s for %s` does not require `%s: %s`" % (tr_.split("::")[-1], i["selfty"].s, p, m), i["crate"])
    ctx.check(n >= 3, "marker", "count", "fewer hand-written Send/Sync implementations than confirmed by hand")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: witness(ctx, "witness", a[0], CR, a[1], a[2], a[3]), W))
    ctx.floor("witness", len(W))
