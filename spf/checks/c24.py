"""Encoding, lookup tables and gadget decomposition."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each encoding, decoding, rounding, digit and lookup-table function's outputs equal the required formula")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::math::radix::', '::Torus>?::(encode|decode)', '^<?&?(mut )?sunscreen_tfhe::math::torus::', 'torus::(From|To)U64>', '::(encode|decode)_polynomial$', 'basic::', 'math::(Reint|Pow)', 'ReinterpretAs', 'math::.*::(reinterpret|pow|from_f64|to_f64)', 'scale_msg_by_gadget', 'lookup_table.*::(trivial_from_fn|fill_|trivivial)', 'generate_lut$', 'generate_bivariate_lut', 'params::PlaintextBits'], ['assert_valid'])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 60)
