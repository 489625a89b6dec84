"""Named parameter sets: the dimension their name states, and noise on the published 128-bit curve; and the security estimate is taken over the whole secret."""
import math, re
from .. import tables as T, formulas

ASSUMES = ["the 128-bit curve log2(std) = -0.0256968 n + 2.6759 (binary secrets, 64-bit torus) is the published one; slack 0.75 bit",
           "the reviewed values in /verif/spec state the intended parameters"]
SLOPE, BIAS, SLACK = -0.025696778711484593, 2.675931372549016, 0.75
NUM = r"([0-9.]+(?:e-?[0-9]+)?)"


def run(ctx):
    ctx.rule("formula", "named parameter sets, the default parameters and the security assertion compute the reviewed values")
    ctx.rule("curve", "every constant named for 128-bit security has noise no smaller than the published curve gives for its total dimension")
    es = T.select(["consts"], ["."], [])
    T.run_formulas(ctx, "formula", es)
    prog, n = ctx.prog, 0
    for f in sorted(prog.fns.values(), key=lambda f: f["n"]):
        if f["kind"] != "const" or not re.search(r"LWE\w*_128$", f["n"]) or "::params::" not in f["n"]:
            continue
        v = formulas.one(prog, f, 3)["out"].get("ret", "")
        std = re.search(r"Stddev\{0:%s\}" % NUM, v)
        ds = [int(x) for x in re.findall(r"(?:LweDimension|PolynomialDegree|GlweSize)\{0:(\d+)\}", v)]
        if not std or not ds:
            ctx.notes.append("curve: `%s` is not a literal parameter set; not decided" % f["n"])
            continue
        n += 1
        dim = math.prod(ds)
        lo = SLOPE * dim + BIAS - SLACK
        got = math.log2(float(std.group(1))) if float(std.group(1)) > 0 else -1e9
        ctx.check(got >= lo, "curve", f["n"], "`%s` has noise 2^%.2f at dimension %d; 128-bit security needs at least 2^%.2f" % (f["n"], got, dim, lo), f.get("file", ""),
                  "%s: 2^%.2f at %d" % (f["n"], got, dim))
    ctx.floor("curve", 4)
    ctx.floor("formula", 9)
