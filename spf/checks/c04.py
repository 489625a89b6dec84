"""Encryption: every ciphertext is the scheme's formula over fresh samples."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each encryption/decryption function's outputs equal the scheme's formula: secret products, message, and noise/masks drawn fresh (indexed by every output coefficient) at the specified deviation")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::ops::encryption::', '::rand::', '::high_level::encryption::', '::(encrypt|decrypt|decrypt_without_decode|encode_encrypt_ggsw|encode_encrypt_glwe|decrypt_decode_glwe)$'], [])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 45)
