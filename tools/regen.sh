#!/bin/sh
# regenerate every formula table from the current tree (then review the diff by hand before committing)
cd "$(dirname "$0")/.."
G="env PYTHONHASHSEED=0 python3 tools/gen_spec.py"
python3 -c "import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True; from spf import facts; facts.load()"
(
$G ops 2 $(python3 -c "import json;print(' '.join(e['fn'] for e in json.load(open('spec/ops.json'))))") | tail -3
$G --file hl 2 sunscreen_tfhe/src/high_level | tail -3
$G --file rand 1 sunscreen_tfhe/src/rand.rs | tail -3
$G --file params 1 sunscreen_tfhe/src/params.rs | tail -3
) &
(
$G --file ent 1 sunscreen_tfhe/src/entities next,next_back,into_iter,split_at,drive,drive_unindexed,with_producer,len,opt_len,size_hint,count,nth | tail -3
$G --file math 1 sunscreen_tfhe/src/math,sunscreen_tfhe/src/iteration,sunscreen_tfhe/src/dst.rs | tail -3
$G --file iter 1 sunscreen_tfhe/src/entities +next,+next_back,+into_iter,+split_at,+drive,+drive_unindexed,+with_producer,+len,+opt_len,+size_hint,+count,+nth | tail -3
$G --file smath 2 sunscreen_math/src | tail -3
R='sunscreen_math::ring'; P='sunscreen_math::poly::Polynomial'
$G smath 2 '<sunscreen_math::combination::Combinations as core::iter::traits::iterator::Iterator>::next' "<$P as core::cmp::PartialEq<$P>>::eq" "<$R::ZInt as core::cmp::PartialEq<$R::ZInt>>::eq" "<$R::ZInt as core::cmp::PartialOrd<$R::ZInt>>::partial_cmp" "<$R::ZInt as core::cmp::Ord>::cmp" "<$R::Zq as core::cmp::PartialEq<$R::Zq>>::eq" "<$R::Zq as core::cmp::PartialOrd<$R::Zq>>::partial_cmp" "<$R::Zq as core::cmp::Ord>::cmp" "<$R::Zq as serde::ser::Serialize>::serialize::cast" "<$R::Zq as serde::de::Deserialize>::deserialize::cast" "<$R::Zq as serde::de::Deserialize>::deserialize" "<$R::Zq as serde::ser::Serialize>::serialize" sunscreen_math_macros::get_modulus sunscreen_math_macros::emit_limbs | tail -3
) &
(
$G --file runtime 3 parasol_runtime/src | tail -3
eval "$G runtime 3 $(python3 -c "
import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True
from spf import facts
print(' '.join(chr(39) + n + chr(39) for n in sorted(facts.load().by_name) if 'GetSize>::get_size' in n))")" | tail -3
) &
$G --file cpu 3 parasol_cpu/src | tail -3 &
$G --file mux 3 mux_circuits/src | tail -3 &
(
$G --file scratch 3 sunscreen_tfhe/src/scratch.rs | tail -3
eval "$G consts 3 $(python3 -c "import json;print(' '.join(chr(39)+e['fn']+chr(39) for e in json.load(open('spec/consts.json'))))")" | tail -3
) &
wait
