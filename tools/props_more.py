p("C08", "Vectorised and scalar implementations agree on every processor",
  "Every vector operation (polynomial add, subtract, multiply-accumulate, scalar multiply-accumulate, digit decomposition, rounding shift, modular reduction, twisting for the transform) computes the same element-wise result whichever implementation the processor's features select, for every slice the operation accepts. Code compiled for, or written in assembly for, a processor feature is reached only after that very feature was found present, and assembly with alignment or length demands is reached only with slices that meet them.",
  ["inputs", "configurations"], "all slices, scalars and combinations of processor features",
  "Tests run on one machine and so exercise one branch of each dispatch; the other branches, and features tested by the wrong name, are never executed.",
  ["sunscreen_tfhe/src/math/simd"],
  [("dispatch on CPU features", "sunscreen_tfhe/src/math/simd/x86_64/mod.rs"), ("AVX2 and AVX-512 implementations", "sunscreen_tfhe/src/math/simd/x86_64"), ("scalar reference", "sunscreen_tfhe/src/math/simd/scalar.rs")])
p("C15", "Modular ring elements are canonical and exact",
  "Every way of making an element of a modular ring (from integers, booleans, strings, big integers, deserialised bytes) yields the value reduced below the modulus or refuses it, and addition, subtraction, negation, multiplication, inversion and powers return the exact result reduced below the modulus, in every owned, borrowed and assigning form. The reduction constants derived for a configured modulus are the ones that modulus needs, and a modulus too large for the reduction is rejected.",
  ["inputs", "programs"], "all moduli, limb counts, operands and operator forms",
  "Tests use a few moduli and sampled operands; a conditional subtraction missing from the reduction, a constant off by one, or a single wrong operator form shows only for rare operands or types.",
  ["sunscreen_math/src/ring", "sunscreen_math_macros/src"],
  [("Barrett reduction and ring operators", "sunscreen_math/src/ring"), ("derived constants", "sunscreen_math_macros/src/lib.rs")])
p("C26", "Polynomials, combinations, geometry and security estimates match definitions",
  "Polynomial arithmetic over a ring (sum, product, evaluation, degree, division by a monic divisor) follows the definition in every owned and borrowed form, and division refuses a zero or non-monic divisor. Combination enumeration, its index and inverse, point-in-polytope tests, tail probabilities and the fitted security estimates compute their defining formulas, and an estimate is given only inside its fitted region.",
  ["inputs", "programs"], "all polynomials, combinations, points and parameters",
  "Tests check a handful of polynomials and one sweep of the estimates; wrong constants outside the sweep, unequal lengths, and unusual operator forms are not reached.",
  ["sunscreen_math/src"],
  [("polynomials", "sunscreen_math/src/poly/mod.rs"), ("combinations", "sunscreen_math/src/combination.rs"), ("security estimates", "sunscreen_math/src/security.rs")])
p("C13", "Deserialised values are size-limited and valid for the parameters",
  "Safe deserialisation of any key, ciphertext, one-time pad or encrypted integer reads at most the number of bytes that type takes under the given parameters, and yields a value only if every component has exactly the length (and every integer the number of bits) the parameters call for; anything else is an error. The size of each type in the scheme library, and its validity test, are the defining function of the dimensions.",
  ["inputs", "configurations"], "all byte strings, types and parameter sets",
  "Tests deserialise valid values and one malformed length; a component left unvalidated or a size limit a few bytes off shows only for crafted input.",
  ["parasol_runtime/src/safe_bincode.rs", "parasol_runtime/src/crypto", "parasol_runtime/src/fluent", "sunscreen_tfhe/src/entities"],
  [("size-limited deserialisation", "parasol_runtime/src/safe_bincode.rs"), ("per-type size and validity", "parasol_runtime/src/crypto"), ("size and check_is_valid of the entities", "sunscreen_tfhe/src/dst.rs")])
p("C14", "Secrets and messages are not written to output, logs or error texts",
  "No library function writes to a stream, file, socket or process, and whatever a panic, log line or error text shows (operands of assertions, formatted values, unwrapped errors, fields of error types) is of a public kind: sizes, indices, names, parameters, operations; never key, message, polynomial or random material.",
  ["inputs", "programs"], "all inputs and all paths, also the failing ones",
  "Output is not looked at by tests, and messages of failing assertions are shown only on paths tests do not take.",
  ["sunscreen_tfhe/src", "parasol_concurrency/src", "sunscreen_math/src", "parasol_runtime/src"],
  [("encryption, key generation and evaluation", "sunscreen_tfhe/src/ops"), ("error types", "sunscreen_tfhe/src/error.rs")])
p("C16", "Encrypted integers hold their value's bits, in order, under the right key",
  "Each constructor, encryption, trivial encryption, decryption, conversion and (un)packing of the encrypted bit and integer types (fixed, dynamic and packed width, signed and unsigned) puts bit i of the value in place i, sign-extends on reading, refuses values out of bounds, and uses the encryption or decryption routine of its own ciphertext kind; the encryption facade hands each routine the key, dimension and radix of its level. The one-time-pad recryption computes the padded sum and its inverse.",
  ["inputs", "configurations"], "all values, widths and parameter sets",
  "The packed and dynamic forms are tested with few widths and values; the highest coefficient, the sign bit or unequal level parameters are easily missed.",
  ["parasol_runtime/src/fluent", "parasol_runtime/src/crypto"],
  [("encrypted integer types", "parasol_runtime/src/fluent"), ("encryption facade", "parasol_runtime/src/crypto/encryption.rs"), ("one-time pads", "parasol_runtime/src/crypto/recryption.rs")])
p("C17", "Each circuit operation runs its own evaluation on its own operands",
  "For every kind of circuit operation, executing a task computes that operation's evaluation routine on the inputs in their declared places (selector, low, high; rotation amount; sampled index) with the evaluation keys, parameters and radix of its level, and writes the result kind the operation produces; tasks with missing, surplus or wrongly typed inputs are refused with an error. Key generation for the runtime derives every key from the right pair of secrets and parameters.",
  ["inputs", "programs"], "all operations, input kinds and parameter sets",
  "Swapped operands of a rarely used operation, or a key of the wrong level whose size happens to coincide, pass the sampled circuits.",
  ["parasol_runtime/src/circuit_processor", "parasol_runtime/src/crypto"],
  [("executing one operation", "parasol_runtime/src/circuit_processor/mod.rs"), ("input validation", "parasol_runtime/src/circuit_processor/task.rs"), ("evaluation facade and keys", "parasol_runtime/src/crypto")])
p("C18", "Circuits complete exactly once, after all their tasks, or report an error",
  "Running a circuit schedules a task exactly when the last of the tasks it depends on has finished (each finished task decrements each of its dependents once, and the decrement that reaches zero schedules), counts every operation down once, and signals completion exactly once, by whoever finishes the last operation, with the first error if one occurred. Results of finished tasks are visible to the tasks and callers that wait for them.",
  ["schedules", "histories"], "all circuits, worker schedules and failing tasks",
  "A missed wake-up, a double completion or a weakened memory ordering needs a particular schedule or a failing task.",
  ["parasol_runtime/src/circuit_processor"],
  [("scheduling and completion", "parasol_runtime/src/circuit_processor/mod.rs"), ("completion callbacks", "parasol_runtime/src/circuit_processor/completion_handler.rs")])
p("C19", "Circuit construction wires every operation's operands as intended",
  "Adding an operation, constant, input, output, conversion, multiplexer circuit, multiplication or (un)packing to a circuit adds exactly the nodes and the edges (with their operand roles) the operation needs, conversions lead from the given ciphertext kind to the requested one, and pruning keeps exactly what the outputs depend on.",
  ["inputs", "programs"], "all operation kinds, widths, conversions and graphs",
  "An exchanged role of two edges, a missing conversion step or a dropped carry matters only for the operand values and kinds tests do not use.",
  ["parasol_runtime/src/fhe_circuit.rs", "parasol_runtime/src/circuits", "parasol_runtime/src/fluent"],
  [("graph construction, conversion, pruning", "parasol_runtime/src/fhe_circuit.rs"), ("multipliers", "parasol_runtime/src/circuits"), ("graph nodes of integers", "parasol_runtime/src/fluent")])
p("C20", "Instructions decode to what was encoded, and unknown words are refused",
  "For every instruction, encoding places the opcode, registers and immediates at the positions and widths that decoding reads them from, decoding refuses unknown opcodes, and the declared operand dependencies and dispatched form of an instruction name its own source and destination registers in order.",
  ["inputs"], "all instructions, register numbers and immediates, and all 64-bit words",
  "Tests round-trip sampled operands; one field's position, mask or one instruction's operand order can be wrong for particular values only.",
  ["parasol_cpu/src/proc/assembly.rs", "parasol_cpu/src/tomasulo"],
  [("instruction table, encoder and decoder", "parasol_cpu/src/proc/assembly.rs")])
p("C21", "Processor memory accesses are bounds-, permission- and alignment-checked",
  "Every load, store, allocation, argument push and conversion of the processor's memory yields exactly the addressed bytes of the right kind and width, changes only them, and refuses unmapped, misaligned, overflowing, read-only or mixed plaintext/ciphertext accesses with the corresponding fault; pages and stack are laid out and permitted as configured.",
  ["inputs", "histories"], "all addresses, widths, page layouts and argument types",
  "Faults at page boundaries, address overflow and partially mapped ranges are particular values; tests touch a few addresses.",
  ["parasol_cpu/src/memory/mod.rs", "parasol_cpu/src/proc/args.rs"],
  [("memory", "parasol_cpu/src/memory/mod.rs"), ("calling convention", "parasol_cpu/src/proc/args.rs")])
p("C22", "Processor operations are width-exact and use the matching circuit on ciphertext",
  "Each arithmetic, logic, shift, comparison, extension, selection and conversion operation computes, on plaintext registers, the operation's result within the register width, and for any encrypted operand builds the circuit of the same operation over the operands in order with the result's width and kind; operands of mismatched widths or unsupported kinds are refused.",
  ["inputs"], "all operations, register kinds, widths and values",
  "Tests sample values and widths; mixed plaintext/ciphertext forms, full-width shifts and sign cases are distinct paths of each operation.",
  ["parasol_cpu/src/proc"],
  [("operations", "parasol_cpu/src/proc/ops"), ("registers", "parasol_cpu/src/proc/mod.rs")])
p("C23", "Instructions run once, in dependency order, with gas and faults accounted",
  "Dispatch renames registers, orders memory accesses after the ones they conflict with, charges the gas of the instruction and its operand kinds, and computes the next program counter; an instruction executes when its last dependency retires, retires once, and a fault or exhausted gas limit ends the program with that error. Function calls set up and return the arguments and result as laid out.",
  ["histories", "inputs"], "all programs, operand kinds and faults",
  "Out-of-order interactions, faults while instructions are in flight, and gas at the limit are rare histories.",
  ["parasol_cpu/src/proc/fhe_processor.rs", "parasol_cpu/src/tomasulo"],
  [("dispatch, execution and retirement", "parasol_cpu/src/proc/fhe_processor.rs"), ("renaming and scoreboard", "parasol_cpu/src/tomasulo")])
p("C27", "Multiplexer circuit generators and optimiser steps build what they declare",
  "Every generator of a binary circuit (adders, subtractors, comparisons, shifts, logic, negation, multiplication) builds its defining decision diagrams from its inputs in their declared order and width, refuses widths it cannot handle, and the graph transformations (common subexpressions, index compaction, input remapping) record exactly the changes they declare.",
  ["inputs"], "all widths, signedness and input orders",
  "Exhaustive tests reach a few small widths; index arithmetic can be wrong only beyond them.",
  ["mux_circuits/src"],
  [("generators", "mux_circuits/src"), ("optimiser", "mux_circuits/src/opt.rs")])
p("C28", "Scratch memory is exclusive, aligned, long enough and never reused while alive",
  "A temporary buffer is backed by storage that no other live buffer uses, is aligned for its element type and holds at least the requested number of elements. Storage is reused only if it satisfies both, is returned to its pool exactly once when the buffer ends, and storage that was freed is never handed out again. Only types for which every bit pattern is valid may be placed there, and no program can keep a view of a buffer beyond its life or share it between threads.",
  ["inputs", "histories"], "all element types, sizes and allocation histories of a thread",
  "The violations are undefined behaviour that needs a particular allocation history and often shows nothing.",
  ["sunscreen_tfhe/src/scratch.rs"],
  [("allocator", "sunscreen_tfhe/src/scratch.rs")])
p("C29", "Named parameter sets keep the dimension and noise of their security claim",
  "Every parameter set named for 128-bit security has the dimensions its name states and noise no smaller than the published 128-bit curve gives for its total dimension, the default parameters combine the sets and gadgets as reviewed, and a parameter set's security estimate is taken over the whole secret's dimension.",
  ["configurations"], "all named parameter sets",
  "A smaller noise makes every functional test more reliable, so tests cannot object to it.",
  ["sunscreen_tfhe/src/params.rs", "parasol_runtime/src/params.rs"],
  [("parameter sets", "sunscreen_tfhe/src/params.rs"), ("default parameters", "parasol_runtime/src/params.rs")])
S = "numeric quantity over random draws: whether noise stays below the decoding threshold depends on the distribution of run-time values and on floating-point error, which no static argument over the source bounds here"
na("N01", "Decrypting evaluated ciphertexts is correct but for negligible probability",
   "For supported parameter sets, every evaluated circuit decrypts to the plaintext result except with negligible probability.",
   ["inputs", "configurations"], "all circuits, messages and random draws", "Failure probabilities far below what sampling can reach.",
   ["sunscreen_tfhe/src"], [("noise growth", "sunscreen_tfhe/src/ops")], S + "; the formulas that determine the noise are decided by C04 to C06 instead.")
na("N02", "The transform's rounding error is below the scheme's tolerance",
   "The floating-point transform computes negacyclic products to within an error that rounding removes.",
   ["inputs"], "all polynomials", "Worst-case inputs are not sampled.",
   ["sunscreen_tfhe/src/math/fft"], [("negacyclic transform", "sunscreen_tfhe/src/math/fft")], S + "; the algebraic structure around the transform is decided by C08 and C25.")
na("N03", "Secret-dependent operations take constant time",
   "No branch, memory index or variable-time instruction depends on key or message material.",
   ["inputs"], "all keys and messages", "Timing is not observed by tests.",
   ["sunscreen_tfhe/src/ops"], [("key generation and encryption", "sunscreen_tfhe/src/ops")],
   "the library does not claim it (binary secrets are drawn and multiplied with ordinary arithmetic, the compiler may introduce branches after the level analysed here), so there is no guarantee to decide.")
na("N04", "The security estimates match the state of the art lattice attacks",
   "The fitted security formulas are within their stated tolerance of the lattice estimator.",
   ["configurations"], "all parameter sets", "The estimator is not run.",
   ["sunscreen_math/src/security.rs"], [("fits", "sunscreen_math/src/security.rs")],
   "needs an external estimator's output as reference; that the code evaluates its published fit only inside its bounds is decided by C26.")
na("N05", "Optimised multiplexer circuits compute the same function as their specification",
   "For all inputs the generated and optimised circuits evaluate to the arithmetic operation they are named after.",
   ["inputs"], "all inputs of all widths", "Exhaustive tests reach only small widths.",
   ["mux_circuits/src"], [("decision diagrams", "mux_circuits/src")],
   "the circuits are built at run time through a decision diagram library; equality of the functions is a semantic equivalence over run-time graphs, outside static reach (C27 decides how the generators assemble them).")
na("N06", "Programs yield the same results on every thread schedule",
   "The out-of-order processor's results equal sequential execution under every worker schedule.",
   ["schedules"], "all programs and schedules", "Schedules are sampled.",
   ["parasol_cpu/src/proc"], [("out-of-order execution", "parasol_cpu/src/proc/fhe_processor.rs")],
   "whole-program equivalence of a dynamic scheduler needs reasoning over run-time dependency graphs; C18 and C23 decide the local effects and guards it is built from.")
