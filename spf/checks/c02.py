"""Typestate of the spin lock: transition relation of every atomic operation on the lock word, admission of every handle,
release on every drop path, orderings, and who may touch the protected value."""
from ..locks import analyse
from .c01 import locks_of, RULES

LEVEL = "other"


def run(ctx):
    for k, v in RULES.items():
        ctx.rule(k, v)
    lk = locks_of(ctx, "Spinlock", "bool", [0, 1])
    if lk is None:
        return
    r = analyse(ctx, lk, "")
    if r and len([1 for _, m in r["acq"] if m == "excl"]) < 2:
        ctx.bad("acquire", "floor-excl", "fewer than two functions hand out the lock handle")
    ctx.floor("init", 1)
    ctx.floor("acquire", 2)
    ctx.floor("release", 1)
    ctx.floor("order", 2)
    ctx.floor("access", 2)
    ctx.floor("private", 3)
