"""Homomorphic pipelines: the right operands, keys and parameters reach each step."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each evaluation pipeline's output equals the required composition of operations over the right operands, keys, parameters, indices and signs")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::ops::bootstrapping::', '::ops::keyswitch::', '::ops::fft_ops::', '::automorphisms::trace', '::ciphertext::(glev|lev|lwe|glwe)_ciphertext_ops::(decomposed|external|glwe_ggsw|sample_extract|glwe_mod_switch|lwe_ciphertext_mod|modulus_switch|glwe_rotate)', '::high_level::evaluation::', 'external_product$', 'blind_rotation_shift', 'lookup_table.*::(trivial_from_fn|fill_|trivivial)'], ['::generate_(?!.*lut|blind)', 'encrypt_keyswitch_key_generic', 'keyswitch_noise'])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 45)
