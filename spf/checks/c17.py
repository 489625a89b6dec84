"""The homomorphic task executor: each operation is carried out by its own evaluation routine on its own operands and keys."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", "each operation's result is the required evaluation of its operands; each evaluation wrapper hands the right keys, parameters and operands to the lattice library")
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['runtime'], ['exec_op', 'Task::validate', 'crypto::evaluation::', 'crypto::keys::', 'crypto::ciphertext::'], ['GetSize'])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 50)
