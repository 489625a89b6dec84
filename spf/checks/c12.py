"""Linear homomorphic operations act identically on mask and body."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each linear operation's output elements equal the stated linear combination, for every mask polynomial and the body")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::ciphertext_ops::(add|sub|glwe_add|glwe_negate|glwe_poly|glwe_scalar|scalar_mul)', '::ciphertext::.*::(add_|sub_|glwe_add|glwe_negate|glwe_poly|glwe_scalar|scalar_mul|add_lwe)', 'fft_ops::glwe_polynomial_mad', 'homomorphisms', 'entities::.*(Add|Sub|Neg|AddAssign|SubAssign|WrappingAdd|WrappingSub|WrappingNeg).*>::(add|sub|neg|add_assign|sub_assign|wrapping_\\w+)$', '::(fill_a_at_index|zero_a_except_at_index|zero_out_a_at_index|fill_with_constant)$', 'sub_lwe'], [])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 40)
