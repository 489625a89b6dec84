"""Parameter and size validation in release builds."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("requires", "every condition the function insists on (a failing side never returns normally; debug-only assertions do not count) is still insisted on, possibly through stronger or equivalent conditions")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::ops::', '::high_level::', '::params::', '::entities::', '::math::', '::dst::'])
    T.run_requires(ctx, "requires", [e for e in es if e["out"].get("#requires")])
    ctx.floor("requires", 300)
