"""Circuits are built with the operands, edges and conversions the operation calls for."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", 'the nodes and edges added, and what is returned, equal the required formula')
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['runtime'], ['fhe_circuit::', 'circuits::', 'graph_', '_graph_node', 'collect_output', 'BitNode', 'append_multiply', 'gen_compare', 'FheCircuitCtx', '::convert$'], ['FheOp as core::clone'])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 70)
