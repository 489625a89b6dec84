"""Key generation: every key element encrypts the required function of the right secret key."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each key generation function's outputs equal the required formula: which secret is encrypted under which key, gadget factor, parameters, fresh samples")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::high_level::keygen::', '::ops::.*::generate_(?!.*lut|blind)', 'encrypt_keyswitch_key_generic', 'keyswitch_noise', 'entities::.*::generate(_binary|_uniform)?$', 'to_lwe_secret_key', 'iteration::triangular_pairs', 'rlwe_generate_public_key', '::polynomial_pow_k'], ['lut$', 'blind_rotation_shift'])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 28)
