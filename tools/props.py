#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def p(id, title, statement, over, over_text, why, files, mech, state=None, claim=True):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": over_text},
              "why_tests_cant": why, "anchors": a, "_claim": claim})


def na(id, title, statement, over, over_text, why, files, mech, reason):
    p(id, title, statement, over, over_text, why, files, mech, claim=False)
    NA.append({"property": id, "reason": reason})


p("C01", "Shared cells never grant aliasing access",
  "A shared cell hands out either one exclusive guard or any number of shared guards, never both at once, under every interleaving of threads and every history of failed, refused and dropped borrows. A refused borrow leaves the cell's borrow state as it was, and dropping a guard undoes exactly the grant that created it, with the orderings needed for the next holder to see the data. The protected value is reachable only through a granted guard or exclusive ownership of the cell.",
  ["schedules", "histories"], "all interleavings of borrow, try-borrow, guard drop and failed borrow on one cell, on all memory orderings the code asks for",
  "Tests sample a few schedules; an aliasing grant needs a particular interleaving or a sequence such as a refused borrow followed by two more operations.",
  ["parasol_concurrency/src/lib.rs"], [("borrow/borrow_mut/try_borrow and guard Drop", "parasol_concurrency/src/lib.rs")],
  [("borrow state word", "1 free, 0 exclusively borrowed, n+1 with n readers", "AtomicRefCell")])
p("C02", "The spin lock provides mutual exclusion",
  "At most one spin lock guard exists at any time under every interleaving; a guard is handed out only after this thread itself moved the lock from free to held, and dropping a guard frees it exactly once with release ordering. The protected value is reachable only through a guard or exclusive ownership of the lock.",
  ["schedules", "histories"], "all interleavings of lock and unlock",
  "Mutual exclusion and ordering failures show only under particular interleavings and hardware reorderings.",
  ["parasol_concurrency/src/lib.rs"], [("lock and SpinlockHandle Drop", "parasol_concurrency/src/lib.rs")])
p("C03", "Thread-safety markers are no stronger than the contents",
  "Every hand-written thread-safety marker in the workspace is implemented only for contents for which sharing or sending the wrapper is sound: a wrapper that hands out its contents to several threads demands the corresponding markers of the contents. Programs that share or send a non-thread-safe value through the locks, cells, guards or borrowed iterators do not compile.",
  ["programs"], "all client programs instantiating the generic containers, guards and iterators",
  "A marker that is too permissive changes no existing program's behaviour; it admits new programs with data races.",
  ["parasol_concurrency/src/lib.rs", "sunscreen_tfhe/src/dst.rs"], [("unsafe impl Send/Sync", "workspace")])
p("C04", "Every ciphertext is the scheme's formula over fresh randomness",
  "For every message, key and parameter set, each encryption function produces exactly its scheme's formula: the body is the mask-times-secret product plus the scaled message plus noise, row by row for composite ciphertexts, with the gadget scaling each row requires; decryption computes the matching phase. Every mask coefficient and noise coefficient is an independent sample drawn for that coefficient alone, never reused between coefficients, rows or calls and never a constant, from the uniform distribution and from the normal distribution at the deviation given by the parameters. Trivial encryptions have a zero mask and the message as body.",
  ["inputs", "configurations"], "all messages, keys, parameter sets and outputs of the random source",
  "Reused, missing or mis-scaled randomness still decrypts correctly, so round-trip tests pass; and tests sample a handful of parameter sets.",
  ["sunscreen_tfhe/src/ops/encryption", "sunscreen_tfhe/src/rand.rs", "sunscreen_tfhe/src/high_level.rs"],
  [("encrypt_*/decrypt_*/trivially_encrypt_*", "sunscreen_tfhe/src/ops/encryption"), ("normal_torus, uniform_torus, binary", "sunscreen_tfhe/src/rand.rs")])
p("C05", "Every key element encrypts the required function of the right secret",
  "Each key generation function (secret, public, bootstrap, keyswitch, private functional keyswitch, circuit bootstrapping, scheme switch and automorphism keys) fills every element of its output with an encryption, under the destination key and at the destination parameters, of exactly the function of the source secret that its consumer needs: the right secret element, sign, power, automorphism, product and gadget factor for every index. No element is left unset and no secret element is skipped or repeated.",
  ["inputs", "configurations"], "all secret keys, parameter sets and element indices",
  "A wrong or missing element for one index, or the wrong noise level, often stays within the noise margin of the sampled parameter sets.",
  ["sunscreen_tfhe/src/ops", "sunscreen_tfhe/src/high_level.rs", "sunscreen_tfhe/src/entities"],
  [("generate_* functions", "sunscreen_tfhe/src/ops"), ("keygen", "sunscreen_tfhe/src/high_level.rs")])
p("C06", "Homomorphic pipelines feed the right operands, keys and parameters to each step",
  "Each evaluation pipeline (external product, multiplexing, programmable and circuit bootstrapping, keyswitching, scheme switching, trace, modulus switching, sample extraction, rotation) computes, for all operands and parameter sets, exactly its composition of steps: every step receives the intended operand, key element, decomposition parameters, shift, index and sign, and sums run over every row and level. Swapped operands, off-by-one indices, skipped rows or the wrong one of two parameter sets never occur.",
  ["inputs", "configurations"], "all ciphertexts, keys and (also unequal) parameter sets",
  "Tests use parameter sets whose sizes, radices or levels coincide, so exchanging two of them or dropping a small term passes.",
  ["sunscreen_tfhe/src/ops/bootstrapping", "sunscreen_tfhe/src/ops/keyswitch", "sunscreen_tfhe/src/ops/fft_ops.rs", "sunscreen_tfhe/src/ops/ciphertext", "sunscreen_tfhe/src/ops/automorphisms", "sunscreen_tfhe/src/high_level.rs"],
  [("programmable_bootstrap, circuit_bootstrap, keyswitch_*, cmux, glwe_ggsw_mad, scheme_switch", "sunscreen_tfhe/src/ops")])
p("C07", "Invalid parameters and mismatched sizes are rejected, also in release builds",
  "Every operation of the scheme library that insists on a precondition about its operands' sizes, its parameter sets or its scalar arguments insists on it for all inputs and in every build profile: when the condition fails the call panics and never returns a result. The preconditions insisted on today stay insisted on.",
  ["inputs", "configurations"], "all operands, parameter sets and build profiles",
  "Tests call operations with consistent sizes, mostly in debug profile; a check that is missing or compiled out in release is never exercised.",
  ["sunscreen_tfhe/src/params.rs", "sunscreen_tfhe/src/ops", "sunscreen_tfhe/src/entities", "sunscreen_tfhe/src/dst.rs"],
  [("assert_valid, assert_is_valid, check_is_valid", "sunscreen_tfhe/src/params.rs, sunscreen_tfhe/src/dst.rs")])
p("C11", "Every entity's sizes, parts, rows and transforms agree with one layout",
  "For every parameter set, the size an entity type reports, what its constructor allocates, where it splits mask from body, the rows and elements its accessors and iterators yield (owned, borrowed, mutable and parallel alike), and its conversion to and from the transformed representation all describe one and the same layout, covering every element exactly once and in order.",
  ["inputs", "configurations"], "all parameter sets and all entities, element by element",
  "Layout slips cancel out in round trips that use the same wrong offset on both sides, and tests use few shapes (often one mask polynomial).",
  ["sunscreen_tfhe/src/entities", "sunscreen_tfhe/src/dst.rs"],
  [("size/new/a_b/rows/fft/ifft of each entity", "sunscreen_tfhe/src/entities")])
p("C12", "Linear homomorphic operations act on every mask element and the body alike",
  "Addition, subtraction, negation, scalar and polynomial multiplication of ciphertexts, and the assign forms, compute the stated linear combination on every mask element and on the body, for all operands and sizes; the owned, borrowed, wrapping and in-place forms of an operation agree with each other.",
  ["inputs", "configurations"], "all ciphertexts and parameter sets",
  "With one mask polynomial and small dimensions, skipping or mis-signing an element may stay within the noise, and tests do not cover every operator form.",
  ["sunscreen_tfhe/src/ops/homomorphisms", "sunscreen_tfhe/src/ops/ciphertext", "sunscreen_tfhe/src/entities", "sunscreen_tfhe/src/macros.rs"],
  [("add/sub/neg/scalar_mul", "sunscreen_tfhe/src/ops"), ("impl_binary_op", "sunscreen_tfhe/src/macros.rs")])
p("C24", "Encoding, lookup tables and gadget decomposition follow their formulas",
  "For every value, plaintext width and decomposition parameters, encoding places the message in the top bits, decoding rounds back to the nearest message, gadget decomposition yields balanced digits whose weighted sum is the input rounded to the kept precision, recomposition scales use the matching powers, and lookup tables place each output at its rotated, half-window shifted position.",
  ["inputs", "configurations"], "all torus values, widths, radices and digit counts",
  "The space of values times radices is out of reach for samples, and errors show only at carries, ties and boundary widths.",
  ["sunscreen_tfhe/src/math/torus.rs", "sunscreen_tfhe/src/math/radix.rs", "sunscreen_tfhe/src/entities/univariate_lookup_table.rs"],
  [("Torus encode/decode", "sunscreen_tfhe/src/math/torus.rs"), ("ScalarRadixIterator, PolynomialRadixIterator", "sunscreen_tfhe/src/math/radix.rs")])
p("C25", "Polynomial arithmetic is negacyclic and complete",
  "For all polynomials of equal length, addition, subtraction, multiplication, multiply-accumulate, scalar operations, monomial multiplication, powers of the indeterminate, automorphism substitution and equality compute every output coefficient of the ring of integers modulo X^N+1, with the sign flip exactly where an exponent wraps, for all exponents including zero, negative and larger than N.",
  ["inputs"], "all coefficient vectors and exponents",
  "Sign and wrap errors hit only particular exponents and coefficients.",
  ["sunscreen_tfhe/src/math/polynomial.rs", "sunscreen_tfhe/src/entities/polynomial.rs", "sunscreen_tfhe/src/entities/polynomial_fft.rs"],
  [("polynomial_* functions", "sunscreen_tfhe/src/math/polynomial.rs")])

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

P.sort(key=lambda x: x["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}) + "\n")
M = {"version": 1, "setup_cmd": "python3 /verif/setup.py",
     "checks": [{"property": x["id"], "quick_cmd": "python3 /verif/check.py %s" % x["id"],
                 "thorough_cmd": "python3 /verif/check.py %s --thorough" % x["id"],
                 "evidence_file": "/verif/evidence/%s.json" % x["id"], "technique": "static analysis",
                 "level": "other", "level_note": "see DESIGN.md"} for x in P if x["_claim"]],
     "not_applicable": NA}
json.dump(M, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(M["checks"]), "claimed")
