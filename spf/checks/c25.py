"""Polynomial arithmetic is negacyclic and complete."""
from .. import tables as T

ASSUMES = ["the element-formula engine models the standard library's iterators, slices, arithmetic traits and rayon adaptors faithfully",
           "the reviewed formulas in /verif/spec state the intended results"]


def run(ctx):
    ctx.rule("formula", "each polynomial operation's output coefficients equal the required formula")
    es = T.select(['ops', 'hl', 'ent', 'math', 'rand', 'params'], ['::math::polynomial::', 'entities::polynomial::', 'entities::polynomial_fft::', 'entities::polynomial_list', 'ops::polynomial', 'math::fft::'], ['::(borrow|borrow_mut|as_ref|deref|deref_mut|to_owned|clone)$'])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 60)
