"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


TWO = ["inputs", "configurations"]

prop("C01", "Addition, subtraction, negation and absolute value are exact",
     "For all U256 and I256 operands (including mixed-sign `_signed`/`_unsigned` forms and u128/i128 operands of the operators), "
     "wrapping_*, overflowing_*, checked_* and saturating_* add, sub, neg and abs return the mathematical result reduced modulo 2^256, "
     "with an overflow flag, None or clamping exactly when the mathematical result is not representable; abs_diff, unsigned_abs, signum and the sign predicates are exact. "
     "The operators (every value/reference/assign form) and Sum return the exact result when it is representable, panic with debug assertions otherwise, and wrap without them.",
     TWO, "all pairs of 256-bit operands, all operator forms, builds with and without debug assertions",
     "2^512 operand pairs; tests and doctests sample a few dozen, and carry/overflow errors need specific word boundaries.",
     ["src/uint/api.rs", "src/int/api.rs", "src/uint/ops.rs", "src/int/ops.rs", "src/macros/ops.rs", "src/macros/iter.rs",
      "src/intrinsics/native/add.rs", "src/intrinsics/native/sub.rs", "src/intrinsics/signed.rs"],
     [("add2/add3/uaddc/iaddc", "src/intrinsics/native/add.rs"), ("sub2/sub3/usubc/isubc", "src/intrinsics/native/sub.rs"),
      ("operator macros", "src/macros/ops.rs")],
     ["returned values, overflow flags, Option discriminants, panics"])

prop("C02", "Multiplication is exact",
     "For all U256 and I256 operands (and u128/i128 operands of the operators) wrapping_mul returns the mathematical product modulo 2^256, and "
     "overflowing_mul, checked_mul and saturating_mul report overflow (flag, None, or clamping to the bound of the right sign) exactly when the mathematical product is not representable. "
     "The operators and Product return the exact product when it is representable, panic with debug assertions otherwise, and wrap without them.",
     TWO, "all pairs of 256-bit operands, all operator forms, both build modes",
     "The carry chain and the overflow test have branches that random inputs never reach; tests use a handful of products.",
     ["src/intrinsics/native/mul.rs", "src/uint/api.rs", "src/int/api.rs", "src/macros/ops.rs", "src/macros/iter.rs"],
     [("umulddi3, mul2, mul3, umulc, imulc", "src/intrinsics/native/mul.rs")],
     ["returned values, overflow flags, panics"])

prop("C03", "Unsigned division and remainder satisfy the division theorem",
     "For all U256 dividends and nonzero divisors (256-bit or u128), every form of / and %, div_euclid, rem_euclid, div_rem and their checked_, wrapping_, overflowing_ and saturating_ forms "
     "return the unique q and r with a = q*b + r and r < b, and report no overflow. Dividing by zero panics, and returns None in the checked forms.",
     TWO, "all pairs of 256-bit operands with a nonzero divisor, every path of the division algorithm, both build modes",
     "Long division has correction steps taken with probability about 2^-64 or 2^-127; sampling does not reach them.",
     ["src/intrinsics/native/divmod.rs", "src/uint/api.rs", "src/uint/ops.rs", "src/macros/ops.rs"],
     [("udivmod4, udiv256_by_128_to_128, div_mod_knuth", "src/intrinsics/native/divmod.rs")],
     ["quotients, remainders, panics"])

prop("C04", "Signed division and remainder, truncating and Euclidean",
     "For all I256 operands with a nonzero divisor and a representable quotient, / and % truncate towards zero with the remainder taking the sign of the dividend, and div_euclid, rem_euclid and div_rem_euclid return the unique Euclidean pair (0 <= r < |b|), in every operator, checked_, wrapping_, overflowing_ and saturating_ form. "
     "For I256::MIN by -1 the checked forms return None, the wrapping and overflowing forms return MIN (quotient) or 0 (remainder) with the flag set, saturating_div returns MAX, and div_euclid, rem_euclid, div_rem and div_rem_euclid panic where documented. "
     "A zero divisor panics, and returns None in the checked forms.",
     TWO, "all pairs of signed 256-bit operands, both build modes",
     "Sign corrections interact with MIN, -1 and 0 and with exact multiples; tests sample a few.",
     ["src/intrinsics/native/divmod.rs", "src/int.rs", "src/int/api.rs", "src/int/ops.rs"],
     [("idivmod4", "src/intrinsics/native/divmod.rs"), ("div_rem, div_rem_euclid", "src/int.rs"), ("div_euclid, rem_euclid family", "src/int/api.rs")],
     ["quotients, remainders, flags, panics"])

prop("C05", "Shifts and rotations",
     "For all values and amounts, << and >> by an amount below 256 (every integer type as the amount, every operator form) are multiplication modulo 2^256 and floor division by 2^n (logical for U256, sign-preserving for I256), and rotate_left and rotate_right rotate by the amount modulo 256. "
     "checked_, overflowing_ and wrapping_ shl/shr return None, set the flag, and reduce the amount modulo 256 exactly when the amount is 256 or more. "
     "With debug assertions the operators panic exactly when the amount is negative or at least 256; without them they use the amount modulo 256.",
     TWO, "all 256-bit values, all shift amounts of all integer types, both build modes",
     "The word-crossing cases (0, 128, 255, above 256) times all values; release-mode masking is not tested at all.",
     ["src/intrinsics/native/shl.rs", "src/intrinsics/native/shr.rs", "src/intrinsics/native/rot.rs", "src/macros/ops.rs", "src/uint/api.rs", "src/int/api.rs"],
     [("shl, shr, sar", "src/intrinsics/native/shl.rs, shr.rs"), ("rol3, ror3", "src/intrinsics/native/rot.rs"), ("shift operator macros", "src/macros/ops.rs")],
     ["returned values, flags, panics"])

prop("C06", "Bitwise operators, bit counting and bit manipulation",
     "For all values, &, |, ^ and ! act on each of the 256 bits, and count_ones, count_zeros, leading/trailing_zeros, leading/trailing_ones agree with the 256-bit representation (256 for the empty cases). "
     "reverse_bits and swap_bytes are the exact bit and byte reversals, and is_power_of_two, next_power_of_two and checked_next_power_of_two agree with their definition, the checked form returning None exactly when the result does not fit.",
     TWO, "all 256-bit values",
     "2^256 values; the word boundary and the all-zero/all-one words are special cases.",
     ["src/uint/api.rs", "src/int/api.rs", "src/intrinsics/native/ctz.rs", "src/uint/ops.rs", "src/int/ops.rs"],
     [("ctlz, cttz", "src/intrinsics/native/ctz.rs"), ("bit manipulation", "src/uint/api.rs")],
     ["returned values"])

prop("C07", "Comparison agrees with the mathematical order",
     "For all pairs of values, ==, <, <=, >, >=, cmp, partial_cmp, min, max and clamp on U256 and I256 agree with the order of the integers they represent, including comparisons of a 256-bit value with u128/i128 in either position. "
     "Equal values hash equally.",
     TWO, "all pairs of 256-bit values, and of a 256-bit value with a 128-bit primitive",
     "Order over two words with mixed signs; tests sample few pairs.",
     ["src/uint/cmp.rs", "src/int/cmp.rs", "src/macros/cmp.rs", "src/uint.rs", "src/int.rs"],
     [("Ord, PartialOrd, PartialEq impls", "src/uint/cmp.rs, src/int/cmp.rs, src/macros/cmp.rs")],
     ["comparison results"])

prop("C08", "Integer conversions preserve the value or fail",
     "From and AsU256/AsI256 conversions from every primitive integer and bool preserve the value (as-conversions to U256 of negative values and between U256 and I256 keep the two's complement bits), and TryFrom between 256-bit types and all primitive integers succeeds exactly when the value is representable in the target and then preserves it. "
     "The as_* methods and as_u256/as_i256 truncate to the low bits like the primitive `as`.",
     ["inputs"], "all values of all source types",
     "Range checks at each type's limits over 2^256 sources; tests sample limits of a few types.",
     ["src/uint/convert.rs", "src/int/convert.rs", "src/uint.rs", "src/int.rs", "src/error.rs"],
     [("From/TryFrom impls", "src/uint/convert.rs, src/int/convert.rs"), ("as_* methods", "src/uint.rs, src/int.rs")],
     ["returned values and errors"])

prop("C09", "Byte, endianness and word conversions",
     "to_be_bytes, to_le_bytes and to_ne_bytes give the big-, little- and native-endian two's complement bytes of the value, from_*_bytes are their inverses for every byte string, and to_be/to_le/from_be/from_le convert accordingly. "
     "from_words and into_words (and high/low and their mutable forms) address the most and least significant 128 bits.",
     ["inputs"], "all values and all 32-byte strings",
     "Byte order errors in rarely inspected positions; a test sees one sample value.",
     ["src/uint/api.rs", "src/int/api.rs", "src/uint.rs", "src/int.rs"],
     [("to_*_bytes/from_*_bytes", "src/uint/api.rs, src/int/api.rs"), ("from_words/into_words", "src/uint.rs, src/int.rs")],
     ["bytes and words"])

prop("C10", "Float to integer conversion truncates and saturates",
     "as_u256 and as_i256 from every f32 and f64 return the value truncated towards zero, saturate to the type's bounds when it is out of range (infinities included), and return 0 for NaN, exactly like the primitive `as`.",
     ["inputs"], "all f32 and f64 bit patterns",
     "2^64 bit patterns; subnormals, infinities and the exponents around the type's limits are each a special case.",
     ["src/uint/convert.rs", "src/int/convert.rs"],
     [("impl AsU256/AsI256 for f32/f64", "src/uint/convert.rs, src/int/convert.rs")],
     ["returned values"])

prop("C11", "Run-time parsing accepts exactly the valid numerals and returns their value",
     "from_str_radix (radix 2 to 36), FromStr, from_str_hex and from_str_prefixed return Ok(v) exactly when the text is an optional sign (+, or - where the type or text admits it), the form's prefix, and at least one digit of the radix, and its value v is representable. "
     "Otherwise they return the documented error kind (empty, invalid digit, positive or negative overflow) and never panic, wrap or truncate.",
     TWO, "all strings and all radixes, both build modes",
     "Unbounded strings; the overflow boundary of each radix needs strings of up to 257 characters.",
     ["src/parse.rs", "src/macros/parse.rs", "src/uint/parse.rs", "src/int/parse.rs", "src/uint.rs", "src/int.rs"],
     [("from_str_radix, from_str_prefixed", "src/parse.rs")],
     ["Ok values, error kinds"])

prop("C12", "Compile-time literals have the value they spell",
     "int! and uint! (and const_from_str_prefixed behind them) evaluate to exactly the value of the literal, in decimal, hexadecimal, octal and binary with underscores and signs, for every representable value, agreeing with run-time parsing. "
     "Literals that are malformed or out of range are rejected rather than yielding a wrong value.",
     ["inputs"], "all literal strings",
     "Any literal a user writes; the accumulation crosses 128-bit words only for long literals.",
     ["src/parse.rs", "src/uint/parse.rs", "src/int/parse.rs", "src/lib.rs"],
     [("const_from_str_prefixed", "src/parse.rs")],
     ["the constant's value, rejection"])

prop("C13", "Formatting prints the exact value",
     "Display prints the exact decimal value with a minus sign exactly for negative values, LowerHex, UpperHex, Octal and Binary print the exact digits of the 256-bit two's complement pattern without leading zeros, and LowerExp/UpperExp print the exact value whenever it is exactly representable as an f64, all honouring width, fill, sign and the alternate flag like the primitive integers. "
     "Display output parses back to the same value.",
     ["inputs"], "all 256-bit values (and the formatter flags)",
     "2^256 values; chunked digit extraction is wrong only at chunk boundaries or in inner zero digits.",
     ["src/fmt.rs", "src/macros/fmt.rs", "src/uint/fmt.rs", "src/int/fmt.rs"],
     [("fmt_u256, fmt_int radix loop", "src/fmt.rs, src/macros/fmt.rs")],
     ["formatted text"])

prop("C14", "Text serialization round-trips",
     "Serializing a U256 or I256 with the default, decimal, prefixed and permissive serde forms produces the canonical text of the value (0x-prefixed lowercase hex with a leading minus for negative values, or decimal), and deserializing that text gives the value back. "
     "Deserialization accepts exactly the texts of its form that denote a representable value.",
     ["inputs"], "all values and all texts",
     "2^256 values; sign, leading zero and width handling each have special cases.",
     ["src/serde.rs", "src/fmt.rs", "src/parse.rs"],
     [("Serialize/Deserialize impls, FormatVisitor, FormatBuffer", "src/serde.rs")],
     ["serialized text, deserialized value"])

prop("C15", "Byte serialization round-trips",
     "The bytes::{le,be,ne} serde forms produce the 32 bytes of the value in that byte order, and compressed_bytes::{le,be} produce them without redundant leading bytes; deserializing either gives back exactly the value. "
     "Inputs of an unsupported length are rejected.",
     ["inputs"], "all values and all byte strings",
     "The compressed form drops bytes depending on the value and sign; only special values were tested.",
     ["src/serde.rs"],
     [("bytes and compressed_bytes modules", "src/serde.rs")],
     ["serialized bytes, deserialized value"])

prop("C16", "Exponentiation is exact",
     "For every base and every u32 exponent, wrapping_pow returns base^exp modulo 2^256, and overflowing_pow, checked_pow and saturating_pow report overflow (flag, None, or clamping to the bound of the right sign) exactly when base^exp is not representable. "
     "pow returns the exact power when it is representable, panics with debug assertions otherwise, and wraps without them.",
     TWO, "all bases and all 2^32 exponents, both build modes",
     "The square-and-multiply loop discards a last squaring and must flag overflow exactly; tests use small powers.",
     ["src/uint/api.rs", "src/int/api.rs"],
     [("pow family loops", "src/uint/api.rs, src/int/api.rs")],
     ["returned values, flags, panics"])

prop("C17", "The LLVM IR backend computes the same functions as the native one",
     "With the llvm-intrinsics feature every intrinsic the crate generates and links (add, sub, mul, shifts, rotations, bit counts, with and without overflow flags) returns, for every input, the same mathematically specified result as the native implementation. "
     "So every operation of U256 and I256 behaves identically with and without the feature.",
     ["inputs", "configurations"], "all operands of all generated intrinsics",
     "The IR is generated at build time and never inspected; value-range annotations can be wrong for single inputs.",
     ["src/intrinsics/llvm.rs", "intrinsics/build/main.rs", "intrinsics/build/intrinsics.rs"],
     [("generated IR", "intrinsics/build/main.rs, intrinsics/build/intrinsics.rs"), ("declarations", "src/intrinsics/llvm.rs")],
     ["intrinsic results"])

prop("C18", "Casts to floating point are faithful and monotone",
     "For every U256 and I256, as_f64 and as_f32 return the value itself whenever it is exactly representable in the target, and otherwise one of the two floats next to it, with the right sign; "
     "values of magnitude 2^128 or more become an infinity in f32, and zero becomes positive zero. A larger integer never gives a smaller float.",
     ["inputs"], "all 256-bit values, and all pairs for monotonicity",
     "2^256 values; the two words are rounded separately, so the cases that go wrong are halfway patterns across the word boundary. The only test converts 2^128.",
     ["src/uint.rs", "src/int.rs"],
     [("as_f32, as_f64", "src/uint.rs, src/int.rs")],
     ["returned floats"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
