#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=state
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
IC=["inputs","configurations"]
CFG=" and every supported x86-64 build configuration (debug/release, SSE2 baseline up to AVX-512)"
p("C01","Integer vector arithmetic is lane-wise, wrapping and independent per lane",
  "For every integer vector type, `+ - * / %` and unary minus (vector-vector, vector-scalar, scalar-vector and compound-assignment forms) give in each lane exactly the two's-complement wrapping result of the scalar operation on that lane's operands, with division truncating toward zero and the remainder taking the dividend's sign. No lane's result depends on any other lane, and overflow never panics or traps. Division and remainder are covered for nonzero divisor lanes other than the minimum value divided by -1.",
  IC,"all lane values of all integer vector types (8 to 128 bits, 1 to 64 lanes), all operator forms"+CFG,
  "Unit tests use splats of 0, 1, 2 and 4 in the SSE2 debug build: no negative operands, no overflow, no two lanes with different values, no optimised or AVX code.",
  ["src/api/ops/vector_arithmetic.rs","src/api/ops/scalar_arithmetic.rs","src/api/ops/vector_neg.rs"],
  [("operator impls over LLVM vector intrinsics","src/api/ops/vector_arithmetic.rs"),("scalar broadcast forms","src/api/ops/scalar_arithmetic.rs")],
  ["return value of each operator"])
p("C02","Float vector arithmetic, min and max are lane-wise IEEE-754 operations",
  "For every floating-point vector type, `+ - * / %`, unary minus (all operator forms) give in each lane the bit-exact IEEE-754 result of the scalar operation, where any NaN may stand for any other NaN. `min`/`max` return in each lane the smaller/larger operand, the other operand when exactly one is a quiet NaN, NaN when both are, and either zero when the operands are zeros of different sign. No lane influences another and subnormals are not flushed.",
  IC,"all f32/f64 lane bit patterns incl. signed zeros, subnormals, infinities and NaNs, all operator forms"+CFG,
  "Unit tests use splats of small integers (plus one NaN case for min/max).",
  ["src/api/ops/vector_arithmetic.rs","src/api/ops/scalar_arithmetic.rs","src/api/ops/vector_neg.rs","src/api/ops/vector_float_min_max.rs"],
  [("float operators","src/api/ops/vector_arithmetic.rs"),("minnum/maxnum","src/api/ops/vector_float_min_max.rs")],["return value of each operator"])
p("C03","Bitwise operators, shifts and rotates act bit-exactly on each integer lane",
  "For every integer vector type, `& | ^ !`, `<<`, `>>` (by a vector of per-lane amounts or by one scalar amount, plain and assigning forms) equal the scalar operation lane by lane for every shift amount in 0..lane-width, with `>>` arithmetic on signed and logical on unsigned lanes. Rotating a lane left or right by n equals the scalar bit rotation by n modulo the lane width, for signed and unsigned lanes of any value and any amount n. Bits shifted or rotated out of a lane never reach another lane.",
  IC,"all lane values, all in-range shift amounts per lane, all rotate amounts"+CFG,
  "Unit tests shift and rotate splats of 0, 1, 2, 4: no negative lanes, no differing amounts per lane, no amounts at or beyond the width for rotates.",
  ["src/api/ops/vector_bitwise.rs","src/api/ops/scalar_bitwise.rs","src/api/ops/vector_shifts.rs","src/api/ops/scalar_shifts.rs","src/api/ops/vector_rotates.rs"],
  [("shift and rotate impls","src/api/ops/vector_rotates.rs"),("bitwise impls","src/api/ops/vector_bitwise.rs")],["return value of each operator"])
p("C04","Bit counting and byte-order operations match their scalar/byte definitions",
  "For every integer vector type, counting ones, zeros, leading zeros and trailing zeros gives in each lane the scalar count of that lane (the lane width for an all-zero lane where applicable). Swapping bytes reverses the byte order of the entire vector and is its own inverse; conversion to and from little-endian is the identity and to and from big-endian equals the byte swap on a little-endian target.",
  IC,"all lane values of all integer vector types"+CFG,
  "Unit tests check a few fixed values per type; each width has its own code path.",
  ["src/api/bit_manip.rs","src/codegen/bit_manip.rs","src/api/swap_bytes.rs","src/codegen/swap_bytes.rs"],
  [("ctpop/ctlz/cttz per type, with scalar fallbacks","src/codegen/bit_manip.rs"),("byte-reversing shuffles/bswap","src/codegen/swap_bytes.rs")],["return values"])
p("C05","Vertical comparisons, mask logic, select and integer min/max are exact per lane",
  "Lane-wise `eq ne lt le gt ge` on integer, float and mask vectors are true in exactly the lanes where the scalar comparison holds (IEEE rules for floats, false < true for masks), and every mask lane produced is canonical (all ones or all zeros). Mask `& | ^ !` (with masks and with bool scalars, assigning forms included) act as boolean algebra per lane; `select` picks, for any vector type with the same lane count, lane i of the first argument where the mask is true and of the second otherwise, bit for bit. Integer `min`/`max` equal the scalar min/max lane by lane.",
  IC,"all lane values, all mask patterns, all (mask, vector) type pairs with equal lane count"+CFG,
  "Unit tests compare uniform vectors of two constants and select with at most a few mask patterns on same-width vectors.",
  ["src/api/cmp/vertical.rs","src/api/select.rs","src/api/ops/vector_mask_bitwise.rs","src/api/ops/scalar_mask_bitwise.rs","src/api/ops/vector_int_min_max.rs"],
  [("vertical comparisons","src/api/cmp/vertical.rs"),("select","src/api/select.rs")],["returned masks (raw bits) and vectors"])
p("C06","Whole-mask queries and bitwise reductions report exactly the lanes that are set",
  "For every mask vector, `all` is true iff every lane is true, `any` iff at least one is, `none` iff no lane is; `bitmask` on mask and integer vectors has bit i set iff the most significant bit of lane i is set and every other bit clear. Horizontal `and`, `or`, `xor` of an integer or mask vector equal the fold of the scalar operation over its lanes. This holds for every lane pattern whichever instruction sequence the build configuration selects.",
  IC,"every lane pattern (exhaustive for up to 16 lanes; one-hot, one-cold, dense and random patterns beyond) of every mask and integer vector type"+CFG,
  "Each mask width has separate SSE/SSE2/AVX/AVX2/halving code; tests run only the SSE2 variant and a few patterns.",
  ["src/codegen/reductions/mask.rs","src/codegen/reductions/mask/x86.rs","src/codegen/reductions/mask/x86/","src/codegen/reductions/mask/fallback_impl.rs","src/api/reductions/mask.rs","src/api/reductions/bitwise.rs","src/api/bitmask.rs"],
  [("per-ISA mask reductions","src/codegen/reductions/mask/x86.rs"),("bitmask","src/api/bitmask.rs")],["return values"])
p("C07","Horizontal sums, products, minima and maxima equal the fold over the lanes",
  "For every integer vector, the wrapping sum and product equal the fold of lanes modulo 2^width, and the minimum/maximum element is the smallest/largest lane (signed or unsigned as typed). For float vectors, sum and product agree with the sum/product of all lanes up to the rounding of some association order (exact when every partial result is exact, NaN if any lane is NaN), and min/max element ignore NaN lanes unless all lanes are NaN. Summing or multiplying an iterator of vectors (by value or by reference) equals the lane-wise fold starting from 0 or 1, including for an empty iterator.",
  IC,"all lane values, all lane positions of the extreme element, iterators of any length"+CFG,
  "Unit tests use uniform or small monotone lane values and one or two iterator lengths.",
  ["src/api/reductions/integer_arithmetic.rs","src/api/reductions/float_arithmetic.rs","src/api/reductions/min_max.rs"],
  [("integer/float reductions","src/api/reductions/integer_arithmetic.rs"),("min/max reductions","src/api/reductions/min_max.rs")],["return values"])
p("C08","Construction, lane access and array conversion keep lane order and values",
  "Building a vector lane by lane, by splat, by default or from an array puts exactly the given value in each lane in order (also in constant evaluation), and reading it back by lane index, by conversion to an array or through memory returns the same values; the vector occupies exactly lanes times lane-size bytes. Replacing lane i changes lane i only, returning a new vector and leaving the original untouched. Reading or replacing a lane at an index at or beyond the lane count always panics and never returns, also in optimised builds.",
  IC,"all vector types (integer, float, mask, pointer), all lane values, all indices in range and out of range"+CFG,
  "Unit tests probe index 0..n on splats and the single out-of-range index n.",
  ["src/api/minimal/iuf.rs","src/api/minimal/mask.rs","src/api/minimal/ptr.rs","src/api/from/from_array.rs","src/api/default.rs","src/lib.rs"],
  [("checked extract/replace","src/api/minimal/iuf.rs"),("array conversions","src/api/from/from_array.rs")],["raw bytes of the vector","panics"])
p("C09","Slice loads and stores touch exactly the first N elements or panic",
  "Loading from a slice (aligned or unaligned, checked or unchecked within its precondition) yields the first N elements in order, and storing writes exactly the first N elements and nothing else; no byte outside those N elements is read or written, at any alignment. The checked forms panic, without reading or modifying the slice, when the slice has fewer than N elements, and the aligned checked forms also panic exactly when the slice start is not aligned for the vector; they never panic otherwise.",
  IC,"all vector types with slice access, all slice lengths (0 to beyond N), all byte alignments the lane type permits, slices abutting unmapped memory"+CFG,
  "Unit tests try one short slice, one misalignment and exact-length slices in ordinary memory, where an over-read or over-write goes unnoticed.",
  ["src/api/slice/from_slice.rs","src/api/slice/write_to_slice.rs","src/api/minimal/ptr.rs"],
  [("length and alignment checks, pointer copies","src/api/slice/from_slice.rs"),("stores","src/api/slice/write_to_slice.rs")],["slice bytes before/after","guard pages (SIGSEGV)","panics","AddressSanitizer reports"])
p("C10","Numeric casts and lossless conversions equal the scalar conversion per lane",
  "Casting between vectors with equal lane count gives in each lane what the scalar `as` conversion gives: truncation or sign/zero extension for integers, round-to-nearest-even toward floats, truncation toward zero from floats with saturation at the integer bounds and 0 for NaN. Casting a mask to a number gives -1 (all bits set) or 0 widened as a signed value, casting to a mask is true exactly for nonzero lanes, and every lossless `From`/`Into` vector conversion preserves each lane's value.",
  IC,"every implemented (source, destination) cast and conversion pair, all lane values"+CFG,
  "Unit tests only check that the lane counts match (casts) or convert a single splat value (conversions).",
  ["src/api/cast.rs","src/api/cast/macros.rs","src/api/from/from_vector.rs"],
  [("per-pair cast impls","src/api/cast/macros.rs"),("per-pair From impls","src/api/from/from_vector.rs")],["return values"])
p("C11","Bit reinterpretation between same-size vectors preserves every bit",
  "With bit conversions enabled, reinterpreting a vector as any other supported vector type of the same total size (including the architecture's native vector types and via `From`) yields a value with the identical byte image, and converting back restores the original. Both directions of the conversion (from-bits and into-bits) agree.",
  IC,"every implemented pair incl. native x86 types, all bit patterns (masks only as destinations of canonical mask bits)"+CFG,
  "Unit tests convert one zero or one constant per pair.",
  ["src/api/into_bits.rs","src/api/into_bits/macros.rs","src/api/into_bits/arch_specific.rs"],
  [("transmute-based impls per pair","src/api/into_bits/macros.rs")],["byte images"])
p("C12","Static shuffles place exactly the selected source lanes",
  "A shuffle of one or two vectors with compile-time indices yields a vector whose lane k is, bit for bit, lane idx[k] of the concatenation of the inputs, for every lane type and for outputs shorter than, equal to or longer than the inputs.",
  ["inputs","programs","configurations"],"all input vectors; index lists drawn per run (identity, reverse, broadcast, interleave, random) for every lane type, input length and output length"+CFG,
  "Index lists are compile-time constants: tests contain a dozen fixed ones on few types.",
  ["src/api/shuffle.rs","src/codegen/shuffle.rs","src/codegen/llvm.rs"],
  [("shuffle macro arms per output length","src/api/shuffle.rs"),("result type table","src/codegen/shuffle.rs")],["raw lanes of the result"])
p("C13","Dynamic shuffles select lane indices[i] for every index vector",
  "Shuffling a vector by a run-time vector of indices yields in lane i exactly the bits of lane indices[i] of the source whenever every index is less than the lane count, for every lane type and every index pattern, identically on every instruction set. With an index at or beyond the lane count the call panics or returns without touching memory outside the vector; it never reads out of bounds.",
  IC,"all source vectors and all in-range index vectors of all vector types (integer, float, mask, pointer)"+CFG,
  "Tests use ascending/reversed indices; byte-shuffle (SSSE3) and permute (AVX) code paths are not compiled at all in the tests.",
  ["src/api/shuffle1_dyn.rs","src/codegen/shuffle1_dyn.rs"],
  [("per-type implementations, SSSE3/AVX specialisations","src/codegen/shuffle1_dyn.rs")],["raw lanes of the result"])
p("C14","Masked gather and scatter access memory only through enabled lanes",
  "Gathering through a vector of pointers returns, for each lane whose mask is true, the value at that lane's pointer and for every other lane the given default, and never dereferences the pointer of a disabled lane (which may be null, dangling, unmapped or misaligned). Scattering stores each enabled lane's value at its pointer in lane order (the highest enabled lane wins on duplicates) and modifies no other byte.",
  IC,"all mask patterns, all pointer patterns incl. duplicates and unmapped pointers under disabled lanes, all element types of 1 to 16 bytes"+CFG,
  "Tests use valid distinct pointers with two or three masks; a disabled-lane access to ordinary memory is invisible.",
  ["src/api/ptr/gather_scatter.rs","src/codegen/llvm.rs"],
  [("masked gather/scatter","src/api/ptr/gather_scatter.rs")],["memory image before/after","guard pages","AddressSanitizer reports"])
p("C15","Pointer vectors behave lane-wise like raw pointers",
  "For const and mut pointer vectors, adding, subtracting or offsetting by a vector of element counts (checked-provenance and wrapping forms) moves lane i by count[i] times the element size, and the distance between two pointer vectors is the inverse: p.offset(n) measured from p is n. Null construction and null tests, vertical comparisons (by address), equality, hashing, array and slice conversions all agree lane by lane with the same operations on the raw pointers, for element types of any non-zero size.",
  IC,"all addresses and counts for which the scalar operation is defined, element sizes 1 to 1000 bytes, cptr/mptr x 2, 4, 8"+CFG,
  "Unit tests use a single pointer value, i32 elements, and never subtract two different pointers.",
  ["src/api/minimal/ptr.rs","src/vPtr.rs","src/codegen/vPtr.rs"],
  [("pointer arithmetic on address vectors","src/api/minimal/ptr.rs")],["raw addresses in result lanes"])
p("C16","Exact float functions, classification and constants are correct in every lane",
  "For every float vector type, `abs` clears the sign bit, `sqrt` is the correctly rounded square root, and fused multiply-add is rounded once, all bit-exact per lane up to NaN identity. NaN/infinite/finite classification is true exactly in the lanes of that class for every bit pattern. Every associated constant holds the scalar constant of the same name in all lanes.",
  IC,"all f32/f64 bit patterns"+CFG,
  "Unit tests use 0, 1, 2, 4 and one PI; NaN, subnormal, overflow and rounding cases are never tried.",
  ["src/api/math/float/","src/codegen/math/float/"],
  [("LLVM intrinsics per type; scalar path for 2-lane f32","src/codegen/math/float/macros.rs"),("classification by comparison","src/api/math/float/consts.rs")],["return values"])
p("C17","Approximate float functions stay within tight error of the true value per lane",
  "For every float vector type, sine, cosine, exponential, logarithm, power, hyperbolic tangent, and sine/cosine of pi times the argument agree in each lane with the scalar library function (respectively its composition with the product by pi) to within a few units in the last place, including signs, infinities, zeros and NaN at the domain edges. The estimates (square root, reciprocal, reciprocal square root, multiply-add) are within 2^-11 relative error, multiply-add being at least as accurate as multiply-then-add. Lanes are independent: the result in a lane does not depend on other lanes.",
  IC,"f32/f64 arguments over the whole domain, incl. special values, per function and vector type"+CFG,
  "Unit tests try 0, 1, PI and PI/2 uniformly in all lanes.",
  ["src/api/math/float/","src/codegen/math/float/"],
  [("vector math intrinsics and scalar loops","src/codegen/math/float/macros.rs"),("tanh via scalar library","src/codegen/math/float/tanh.rs")],["return values compared with scalar libm evaluated in higher precision where possible"])
p("C18","Equality, lexicographic order and hashing of vectors are coherent",
  "Two vectors are equal iff all lanes are equal (NaN unequal to everything), and `!=` is its negation. The lexicographic wrappers order integer and mask vectors like their arrays of lanes compared lexicographically, forming a total order in which all of `< <= > >=`, partial and total comparison agree and sorting terminates correctly. Hashing an integer vector equals hashing its lane array, so equal vectors hash equally.",
  IC,"all pairs and triples of vectors incl. ones differing in a single lane at any position"+CFG,
  "Unit tests compare a handful of uniform or ramp vectors and hash one splat.",
  ["src/api/cmp/partial_eq.rs","src/api/cmp/eq.rs","src/api/cmp/partial_ord.rs","src/api/cmp/ord.rs","src/api/hash.rs"],
  [("PartialEq/Eq","src/api/cmp/partial_eq.rs"),("lexicographic wrappers","src/api/cmp/partial_ord.rs"),("Hash","src/api/hash.rs")],["comparison results, sort results, hasher byte streams"])
p("C19","Formatting prints type name and every lane in order, honouring format flags",
  "Debug output of a vector is its type name followed by all lanes, in order, comma-separated in parentheses, each lane printed exactly as the scalar prints under the same formatting flags (sign, width, precision, fill, alternate form). Lower/upper hex, octal and binary output of integer vectors follow the same shape with the corresponding scalar format; scalar masks print their type name and truth value.",
  IC,"all vector types, all lane values, combinations of formatting flags",
  "Unit tests format only the default vector with no flags.",
  ["src/api/fmt/","src/masks.rs","src/api/minimal/ptr.rs"],
  [("fmt trait impls","src/api/fmt/debug.rs")],["formatted strings"])
p("C20","Results do not depend on optimisation level or enabled CPU features",
  "For the same inputs, every deterministic operation of the library returns bit-identical results (up to NaN identity) whether compiled in debug or release mode and for any supported combination of enabled x86-64 vector extensions, and whether operations are composed in one optimised function or called one at a time; this covers operations within the domains of the other properties, excluding those only specified up to an error bound (estimates, transcendental functions, float sums and products). Enabling an extension never changes a result, introduces a panic or crash, or removes an API.",
  ["programs","inputs","configurations"],"random straight-line programs over the vector API and random inputs, across debug/release x SSE2, SSSE3, SSE4.2, AVX, AVX2+FMA, AVX-512 builds",
  "The test-suite is only ever compiled once, in debug mode for baseline SSE2, one operation per assertion.",
  ["src/codegen.rs","src/codegen/reductions/mask/x86.rs","src/codegen/shuffle1_dyn.rs","src/codegen/math/float.rs","src/api.rs"],
  [("cfg(target_feature) selected implementations","src/codegen/")],["per-build event logs of result digests"])
p("C21","Scalar mask types are canonical booleans",
  "A scalar mask built from a bool tests as that bool, is represented by all ones or all zeros of its width, defaults to false, and compares, orders (false before true), and hashes exactly like the bool it holds. Extracting a lane of a mask vector, writing it to an array of scalar masks and rebuilding the mask vector round-trips every pattern.",
  IC,"both values, all mask widths, all mask vector patterns",
  "Unit tests touch scalar masks only as array elements of one constant.",
  ["src/masks.rs","src/api/minimal/mask.rs","src/api/from/from_array.rs"],
  [("scalar mask types","src/masks.rs")],["raw representation and trait results"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
