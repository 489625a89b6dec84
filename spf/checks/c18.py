"""The circuit processor: every task runs once after its inputs, completion and errors are reported once."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", 'the effects of scheduling (sends, counter updates, callbacks, spawned work), the conditions they happen under, and their operands equal the required ones')
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['runtime'], ['CircuitProcessor::(dispatch|execute_task|new|run_graph_blocking|spawn_graph)$', 'completion_handler', 'runtime_error'], [])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 14)
