"""Processor operations: plaintext and ciphertext forms, register widths and kinds."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", 'what each operation hands to the circuit or computes on plaintext, for each kind of operands, equals the required formula')
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['cpu'], ['FheProcessor::', 'proc::ops', 'check_register_width', 'register_to_l1glwe', 'proc::Register', 'proc::Ciphertext', 'pack_int', 'FheComputer'], ['::clone', 'FheProcessor::(dispatch_instruction|execute_ready|reset|retire|run_program|set_up|try_|wait|compute_gas|new|make_retirement)', 'FheProcessor as', 'RunProgramOptions'])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 40)
