"""Atoms of the element-formula analysis for sunscreen_tfhe: primitives whose meaning is given (each is itself checked by a
formula over its own body, or is listed as an assumption) and must not be inlined."""
from .terms import is_t, short
from .algebra import ENT, ACC, X, plain

T = "sunscreen_tfhe::"
M = T + "math::"


def region_at(al, st, ref, ix):
    root, path = al.deref_place(ref)
    if not isinstance(root, int) and is_t(root[1], "cref"):
        v = root[1][1]
        for e in path:
            v = al.proj(st, v, e)
        return al.proj(st, v, ("i", ix))
    return al.rd(st, root, al._flatten(path + (("i", ix),)))


def wr_all(al, st, rec, ref, f):
    """write every element q of a region: f(q)"""
    bb = rec["bb"]
    q = ("q", ("cp", bb))
    root, path = al.deref_place(ref)
    v = f(q)
    al.wr(st, root, path + (("i", q),), v)
    return ("unit",)


def a_uniform(al, st, rec):
    return ("rnd", "U", rec["bb"], al.lvs(rec["bb"]), ())


def a_normal(al, st, rec):
    return ("rnd", "N", rec["bb"], al.lvs(rec["bb"]), (al.val(st, rec["args"][0]),))


def a_binary(al, st, rec):
    return ("rnd", "B", rec["bb"], al.lvs(rec["bb"]), ())


def a_fill(kind):
    def f(al, st, rec):
        bb = rec["bb"]
        ps = tuple(al.val(st, a) for a in rec["args"][1:])
        return wr_all(al, st, rec, rec["args"][0], lambda q: ("rnd", kind, bb, al.lvs(bb) + (q,), ps))
    return f


def a_pmad(al, st, rec):
    c, a, b = rec["args"][:3]
    la, lb = region_at(al, st, a, X), region_at(al, st, b, X)
    return wr_all(al, st, rec, c, lambda q: ("add", region_at(al, st, c, q), ("pmul", la, lb, q)))


def a_copy(al, st, rec):
    """out[q] = in[q] (transform represented by the polynomial itself)"""
    src, dst = rec["args"][:2]
    return wr_all(al, st, rec, dst, lambda q: region_at(al, st, src, q))


def a_radix_new(al, st, rec):
    poly, _, radix = rec["args"][:3]
    return ("it", "digits", rec["bb"], al.lam(st, poly), al.val(st, radix))


def a_sradix_new(al, st, rec):
    v, radix = rec["args"][:2]
    return ("it", "sdigits", al.val(st, v), al.val(st, radix))


def a_write_next(al, st, rec):
    self_, dst = rec["args"][:2]
    bb = rec["bb"]
    root, path = al.deref_place(self_)
    it = al.rd(st, root, path)
    if not (is_t(it, "it") and it[1] == "digits"):
        it = ("it", "digits", None, None, it)
    lvl = al.level(root, path, bb)
    if it[3] is None:
        wr_all(al, st, rec, dst, lambda q: ("idx", ("fn", "digits", it[4], lvl), q))
    else:
        wr_all(al, st, rec, dst, lambda q: ("fn", "digit", al.at(st, it[3], q), it[4], lvl))
    return ("fresh", "opt", bb)


def a_fn(name, n=None):
    def f(al, st, rec):
        return ("fn", name) + tuple(al.val(st, a) for a in rec["args"][:n])
    return f


def a_vec3(op):
    def f(al, st, rec):
        c, a, b = rec["args"][:3]
        return wr_all(al, st, rec, c, lambda q: (op, region_at(al, st, a, q), region_at(al, st, b, q)))
    return f


def a_scalar_mad(al, st, rec):
    c, a, s = rec["args"][:3]
    s = al.val(st, s)
    return wr_all(al, st, rec, c, lambda q: ("add", region_at(al, st, c, q), ("mul", region_at(al, st, a, q), s)))


def a_cmad(al, st, rec):
    c, a, b = rec["args"][:3]
    return wr_all(al, st, rec, c, lambda q: ("add", region_at(al, st, c, q), ("mul", region_at(al, st, a, q), region_at(al, st, b, q))))


def a_shr_round(al, st, rec):
    c, a, n = rec["args"][:3]
    n = al.val(st, n)
    return wr_all(al, st, rec, c, lambda q: ("fn", "shr_round", region_at(al, st, a, q), n))


def a_monomial(sign):
    def f(al, st, rec):
        p, d = rec["args"][:2]
        d = al.val(st, d)
        lp = region_at(al, st, p, X)
        return wr_all(al, st, rec, p, lambda q: ("rot", lp, d if sign > 0 else ("neg", d), q))
    return f


def a_pow_k(al, st, rec):
    y, x, k = rec["args"][:3]
    lp = region_at(al, st, x, X)
    return wr_all(al, st, rec, y, lambda q: ("powk", lp, al.val(st, k), q))


P = M + "polynomial::"
R = T + "rand::"
PR = ENT + "polynomial::PolynomialRef::"
PF = ENT + "polynomial_fft::PolynomialFftRef::"
VO = M + "simd::VectorOps::"

ATOMS = {
    R + "uniform_torus": a_uniform,
    R + "normal_torus": a_normal,
    R + "binary": a_binary,
    R + "binary_torus_polynomial": a_fill("B"),
    R + "normal_torus_polynomial": a_fill("N"),
    P + "polynomial_mad_impl": a_pmad,
    PR + "fft": a_copy,
    PF + "ifft": a_copy,
    PF + "multiply_add": a_pmad,
    M + "radix::PolynomialRadixIterator::new": a_radix_new,
    M + "radix::PolynomialRadixIterator::write_next": a_write_next,
    M + "radix::ScalarRadixIterator::new": a_sradix_new,
    M + "radix::scale_by_decomposition_factor": a_fn("gadget"),
    M + "torus::Torus::encode": a_fn("encode"),
    M + "torus::Torus::decode": a_fn("decode"),
    VO + "vector_add": a_vec3("add"),
    VO + "vector_sub": a_vec3("sub"),
    VO + "vector_scalar_mad": a_scalar_mad,
    VO + "vector_shr_round": a_shr_round,
    # assembly bodies: their meaning is established by the vector-program rule (simd.py)
    M + "simd::x86_64::avx512::complex_mad_avx_512_unchecked": a_cmad,
    M + "simd::x86_64::avx512::vector_scalar_mad": a_scalar_mad,
    PR + "mul_by_monomial_negacyclic": a_monomial(1),
    PR + "mul_by_positive_monomial_negacyclic": a_monomial(1),
    PR + "mul_by_negative_monomial_negacyclic": a_monomial(-1),
    T + "ops::polynomial::polynomial_pow_k": a_pow_k,
}



# ------------------------------------------------------------------ ciphertext-level operations
# Each operation is summarised by its own formula; in the functions built from them it is an opaque value of its inputs.
# roles: o output (overwritten), m output (updated from its old value), i input, - ignored
O = T + "ops::"
OPS = {
    "encryption::lwe_encryption::encrypt_lwe_ciphertext": ("enc_lwe!", "oiii"),
    "encryption::glwe_encryption::encrypt_glwe_ciphertext_secret_generic": ("enc_glwe!", "oiii"),
    "encryption::glwe_encryption::trivially_encrypt_glwe_ciphertext": ("triv_glwe", "oii"),
    "encryption::glev_encryption::encrypt_secret_glev_ciphertext_generic": ("enc_glev!", "oiiiii"),
    "encryption::ggsw_encryption::encrypt_ggsw_ciphertext_generic": ("enc_ggsw!", "oiiiiii"),
    "encryption::rlwe_encryption::rlwe_encrypt_public": ("enc_pk!", "oiii"),
    "encryption::glwe_encryption::decrypt_glwe_ciphertext": ("dec_glwe", "oiii"),
    "keyswitch::glwe_keyswitch_key::encrypt_keyswitch_key_generic": ("gen_ksk!", "oiiiii"),
    "keyswitch::glwe_keyswitch::keyswitch_glwe_to_glwe": ("ks_glwe", "oiiii"),
    "keyswitch::lwe_keyswitch::keyswitch_lwe_to_lwe": ("ks_lwe", "oiiiii"),
    "keyswitch::private_functional_keyswitch::private_functional_keyswitch": ("pfks", "oiiiiii"),
    "keyswitch::private_functional_keyswitch::generate_private_functional_keyswitch_key": ("gen_pfksk!", "oiiiiiii"),
    "keyswitch::public_functional_keyswitch::public_functional_keyswitch": ("pufks", "oiiiiii"),
    "fft_ops::keyswitch_glwe_to_glwe": ("ks_glwe", "oiiii"),
    "fft_ops::cmux": ("cmux", "oiiiii"),
    "fft_ops::glwe_ggsw_mad": ("ggsw_mad", "miiii"),
    "ciphertext::glwe_ciphertext_ops::glwe_ggsw_mad": ("ggsw_mad", "miiii"),
    "fft_ops::scheme_switch_fft": ("scheme_switch", "oiiiii"),
    "ciphertext::glwe_ciphertext_ops::sample_extract": ("sample_extract", "oiii"),
    "ciphertext::glwe_ciphertext_ops::glwe_mod_switch_and_expand_pow_2": ("mod_switch_expand", "oiii"),
    "ciphertext::lwe_ciphertext_ops::lwe_ciphertext_modulus_switch": ("mod_switch", "miiii"),
    "homomorphisms::lwe::lwe_rotate": ("lwe_rotate", "oiii"),
    "automorphisms::trace": ("trace", "oiiii"),
    "bootstrapping::programmable_bootstrapping::generalized_programmable_bootstrap": ("pbs", "oiiiiiiii"),
    "bootstrapping::programmable_bootstrapping::generate_lut": ("lut", "oiii"),
    "bootstrapping::blind_rotation::rotate_glwe_monomial_negacyclic": ("rotate_glwe", "oiii"),
    "ciphertext::glwe_ciphertext_ops::glwe_add_assign": ("glwe_add", "mii"),
    "ciphertext::glwe_ciphertext_ops::add_glwe_ciphertexts": ("glwe_add", "oiii"),
    "ciphertext::glwe_ciphertext_ops::sub_glwe_ciphertexts": ("glwe_sub", "oiii"),
    "bootstrapping::scheme_switch::scheme_switch": ("scheme_switch", "oiiiii"),
    "bootstrapping::scheme_switch::update_encrypted_secret_key_component": ("upd_skc", "miii"),
    "fft_ops::scheme_switch_glwe_operation": ("ss_glwe", "iioiiii"),
    "ciphertext::glev_ciphertext_ops::decomposed_polynomial_glev_mad": ("glev_mad", "miii"),
}

VIEWS = {
    "glwe_ciphertext": (("a", 2), ("b", 1)), "glwe_ciphertext_fft": (("a", 2), ("b", 1)),
    "lwe_ciphertext": (("a", 1), ("b", 0)),
    "glev_ciphertext": (("glwes.a", 3), ("glwes.b", 2)), "glev_ciphertext_fft": (("glwes.a", 3), ("glwes.b", 2)),
    "lwe_ciphertext_list": (("cts.a", 2), ("cts.b", 1)),
    "glwe_secret_key": (("s", 2),), "polynomial": (("", 1),), "polynomial_fft": (("", 1),), "lwe_secret_key": (("", 1),),
}


def entkind(ty):
    n = (ty.peel().p or "") if ty is not None else ""
    return n[len(ENT):].split("::")[0] if n.startswith(ENT) else ""


def entval(al, st, a, ty):
    """value of an entity argument: the region itself, or its components when they were written separately"""
    if ty is None or ty.k not in ("ref", "ptr"):
        return al.val(st, a)
    root, path = al.deref_place(a)
    if not isinstance(root, int) and is_t(root[1], "cref"):
        return al.val(st, a)
    k = entkind(ty)
    if k not in VIEWS or not al._has_sub(st, root, path):
        v = al.rd(st, root, path)
        return al.val(st, v) if al._isref(v) else v
    out = []
    for nm, n in VIEWS[k]:
        xs = [("x", i + 1) for i in range(n)] if n > 1 else [X]
        p = []
        if nm.startswith("glwes.") or nm.startswith("cts."):
            p = [nm.split(".")[0], ("i", xs.pop(0)), nm.split(".")[1]]
        elif nm:
            p = [nm]
        if n:
            p += [("i", x) for x in xs]
        out.append(al.rd(st, root, al._flatten(path + tuple(p))))
    return ("ent", k) + tuple(out)


def a_op(nm, roles):
    rnd = nm.endswith("!")
    nm = nm.rstrip("!")

    def f(al, st, rec):
        bb = rec["bb"]
        args, tys = rec["args"], rec["optys"]
        vals = []
        for r, a, t in zip(roles, args, tys):
            if r in "im":
                vals.append(entval(al, st, a, t))
        v = ("op", nm, ((bb,) + al.lvs(bb)) if rnd else 0, tuple(vals))
        for r, a in zip(roles, args):
            if r in "om":
                root, path = al.deref_place(a)
                al.wr(st, root, path, v)
        t = al.b.locals[rec["dest"][0]] if rec.get("dest") and len(rec["dest"]) == 1 else None
        if t is not None and (t.s == "()" or t.k == "tuple" and not t.a):
            return ("unit",)
        return ("opret", v)
    return f


def a_region_copy(si, di):
    def f(al, st, rec):
        src, dst = rec["args"][si], rec["args"][di]
        al.copy_region(st, al.deref_place(dst), al.deref_place(src))
        return ("unit",)
    return f


OPATOMS = {O + k: a_op(*v) for k, v in OPS.items()}
OPATOMS[ENT + "glwe_ciphertext::GlweCiphertextRef::zero_out_a_at_index"] = a_op("zero_a", "mii")


def opatom(n):
    """atom of a function at the ciphertext level"""
    if n in OPATOMS:
        return OPATOMS[n]
    if n.startswith(ENT):
        sn = short(n)
        if sn in ("fft", "ifft") and n.count("::") == 4:
            return a_region_copy(0, 1)
        if sn == "clone_from_ref":
            return a_region_copy(1, 0)
    return None


# helpers decided on their own and left as they are in their callers
OPAQUE = ("sunscreen_math::combination::number_combinations",)


def mk_policy(atoms):
    def policy(f, c, b, bb):
        n = f["n"]
        if plain(n) in atoms:
            return False
        if n.startswith(ENT) and short(n) in ACC:
            return False
        if n.startswith((ENT, "<" + ENT)) and "Iterator" in n and short(n) in ("new", "next", "next_back", "nth"):
            return False
        if "tfhe::scratch::" in n or n in OPAQUE:
            return False
        return True
    return policy


POLICY = mk_policy(ATOMS)


def level2(fn):
    """atoms for a function built from ciphertext-level operations (the function itself is never its own atom)"""
    return Level2(plain(fn["n"]))


class Level2(dict):
    def __init__(self, me):
        super().__init__(ATOMS)
        self.me = me

    def get(self, n, d=None):
        if n is None or n == self.me:
            return d
        return opatom(n) or super().get(n, d)

    def __contains__(self, n):
        return self.get(n) is not None


# ------------------------------------------------------------------ level 3: runtime, processor and circuit crates
import json, os
_OPQ = None


def opaque3():
    """functions decided on their own (their names stand for them in their callers)"""
    global _OPQ
    if _OPQ is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "opaque.json")
        _OPQ = frozenset(json.load(open(p))) if os.path.exists(p) else frozenset()
    return _OPQ


_SCR = None


def scratch_fns():
    global _SCR
    if _SCR is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "scratch.json")
        _SCR = frozenset(e["fn"] for e in json.load(open(p))) if os.path.exists(p) else frozenset()
    return _SCR


def policy3(me):
    opq = opaque3() - {me}

    def policy(f, c, b, bb):
        n = f["n"]
        if n in opq or f["crate"] == "parasol_concurrency":
            return False
        if f["crate"] in ("sunscreen_tfhe", "sunscreen_math"):
            if "sunscreen_tfhe::scratch::" in me and f.get("file", "").endswith("tfhe/src/scratch.rs") and n not in scratch_fns():
                return True   # a helper of the allocator itself
            return f.get("file", "").endswith(("tfhe/src/params.rs", "tfhe/src/math/polynomial.rs")) or f["kind"] == "closure"
        return n != me
    return policy
