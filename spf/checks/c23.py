"""Instruction dispatch, register renaming, retirement, faults and gas."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", 'the effects of dispatching, executing and retiring an instruction, the next program counter, the gas charged and the faults reported equal the required ones')
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['cpu'], ['FheProcessor::(dispatch_instruction|execute_ready|reset|retire|run_program|set_up|try_|wait|compute_gas|new|make_retirement)', 'FheProcessor as', 'RunProgramOptions', 'tomasulo::', 'runner::', 'error::Error'], ['::clone'])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 45)
