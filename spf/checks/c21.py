"""Processor memory: alignment, permissions, bounds, allocation and argument passing."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", 'what a load, store, allocation or argument conversion yields, the state it leaves and the fault it reports equal the required formula')
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['cpu'], ['memory::', 'args::', '::size$', 'is_invalid_load_store'], ['::clone', 'FheProcessor::(load|store)$'])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 70)
