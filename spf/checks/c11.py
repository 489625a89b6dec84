"""Entity layout: sizes, splits, rows and transforms agree."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "sizes, constructors, splits, row/element accessors and per-element transforms of every entity equal their layout formulas")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params', 'iter'], ['Iter(ator)?(Mut)?(<.*>)? as .*>::', 'entities::.*::(new|size|rows|rows_mut|rows_par|rows_par_mut|a|b|a_mut|b_mut|a_b|a_b_mut|split_idx|split_at_idx|keyswitch_keys|keyswitch_keys_mut|ciphertexts|ciphertexts_mut|glwe|glwe_mut|glwe_ciphertexts|glwe_ciphertexts_mut|glevs|glevs_mut|glevs_par|glevs_par_mut|glev_ciphertexts|glev_ciphertexts_mut|get_glev_at_index|get_glev_at_index_mut|get_linear_index|triangular_number_entries|keys|keys_mut|keys_par|keys_par_mut|s|s_mut|s_par|lwe_ciphertexts|lwe_ciphertexts_mut|enc_zeros|enc_zeros_mut|p0_p1|zero_encryption|zero_encryption_mut|iter|iter_mut|coeffs|coeffs_mut|degree|zero|from_slice|from_mut_slice|as_slice|as_mut_slice|clear|clone_from_ref|fft|ifft|as_torus|as_wrapping|as_wrapping_mut|as_univariate|is_empty|clone|deref|deref_mut|borrow|borrow_mut|as_ref|to_owned)$', '::dst::', 'high_level::fft::', 'params::.*::(as_lwe|assert_valid)'], [])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 450)
