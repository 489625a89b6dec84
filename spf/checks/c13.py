"""Safe deserialization: size limits and validity of every deserializable type."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's containers, options, results and arithmetic faithfully",
           "the reviewed formulas in /verif/spec state the intended results",
           "calls into the lattice library, the graph library and the thread pool are compared by callee, operands and order of effects, not entered"]


def run(ctx):
    ctx.rule("formula", 'the size limit, the component lengths insisted on and the accept-or-reject result equal the required formula for every type')
    ctx.rule("requires", "conditions insisted on (checks before use, error returns) stay insisted on")
    es = T.select(['runtime', 'ent', 'math', 'params'], ['GetSize>::(get_size|check_is_valid)', 'safe_bincode::deserialize', 'OverlaySize>::(size|check_is_valid)', '::check_is_valid$', '::size$'], ['ToArg'])
    res = T.compute(ctx, es)
    T.run_formulas(ctx, "formula", es, results=res)
    T.run_requires(ctx, "requires", es, results=res)
    ctx.floor("formula", 60)
