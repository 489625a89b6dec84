"""Mathematical utilities: polynomials over a ring, combinations, geometry, statistics, security estimates."""
from .. import tables as T

ASSUMES = ["statrs, num and the standard library's floating point functions compute what their names say; floating point sums are compared up to reassociation",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each function's outputs equal the required formula, for every input and every owned, borrowed or mixed operator form")
    ctx.rule("requires", "conditions insisted on stay insisted on")
    es = T.select(["smath"], ["::poly::", "combination", "geometry", "stats", "security"])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 50)
