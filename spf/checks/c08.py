"""Vectorised implementations: feature guards, assembly meaning, and agreement of the siblings with the required formulas."""
from .. import tables as T
from .. import simd

ASSUMES = ["raw_cpuid reports the processor's features truthfully (operating system support for the wide registers is taken for granted)",
           "a fused multiply-add and a separate multiply and add are taken as the same operation",
           "the element-formula engine models the standard library's iterators, slices and arithmetic traits faithfully"]


def run(ctx):
    ctx.rule("dispatch", "on every path to a call of code compiled for (or containing assembly of) a processor feature, that feature was tested present")
    ctx.rule("assembly", "each assembly block computes the scalar formula on every word of its step, steps over the whole slice, declares the registers it writes, and is reached only with aligned, equally long slices of a whole number of steps")
    ctx.rule("formula", "every implementation of a vector operation, and the dispatching function over all its feature branches, has the one required element formula")
    simd.run(ctx)
    ctx.floor("dispatch", 5)
    ctx.floor("assembly", 4)
    es = T.select(['math', 'ent'], ['::simd::', 'polynomial_fft::.*multiply_add', 'PolynomialRef::(fft|add_|sub_)'])
    T.run_formulas(ctx, "formula", es)
    ctx.floor("formula", 35)
