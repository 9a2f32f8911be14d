"""What each check runs."""
import llvmir

PROPS = {
    "C01": dict(
        modules=["c01"],
        functions=["U256/I256: overflowing_, wrapping_, checked_, saturating_ add/sub/neg, "
                   "add_signed, add_unsigned, sub_unsigned, abs, unsigned_abs, abs_diff, signum(128), "
                   "is_negative, is_positive; every impl of Add, Sub, Neg, AddAssign, SubAssign "
                   "(values, references, u128/i128 operands on either side); Sum"],
        note="Every contract is discharged for all inputs by Kani/CBMC on the real code, in both build "
             "configurations; Sum is bounded to 3 items. Trusts Kani, CBMC and the specification file.",
        bounded=["Sum: sequences of at most 3 items"],
    ),
    "C02": dict(
        modules=["c02"], verus=["facts"],
        functions=["umulddi3, mul3, mul2, umulc, imulc (native intrinsics)",
                   "U256/I256: wrapping_, overflowing_, checked_, saturating_ mul; every impl of Mul and "
                   "MulAssign (values, references, u128/i128 operands on either side); Product"],
        note="umulddi3 is proved against the limb formula, mul3/umulc against it by cvc5, imulc and every caller "
             "against the contracts of the functions they call, for all inputs. That the limb formula is the "
             "product, and every fact of arithmetic those contracts assume, is proved in Verus on the harness's own text. "
             "Product is bounded to 2 factors.",
        technique="contract-based deductive verification: Kani/CBMC full-domain contracts on the real functions, callers against "
                  "callee contracts; Verus lemmas that the contracts' formula and facts are those of the integer product",
        bounded=["Product: sequences of at most 2 factors"],
        trusted=["the definition of the signed product by magnitudes and signs (harness/src/arith.rs, imul_with)",
                 "u128::overflowing_mul: contract in verus/facts.rs"],
    ),
    "C03": dict(
        modules=["c03"],
        functions=["udiv2, udiv3, urem2, urem3", "U256: every impl of Div, Rem, DivAssign, RemAssign; checked_, "
                   "wrapping_, overflowing_, saturating_ div/rem/div_euclid/rem_euclid/div_rem/div_rem_euclid"],
        note="The core (udivmod4, Knuth's algorithm D in div_mod_knuth with its seven inner functions, and "
             "udiv256_by_128_to_128) is extracted from the source on every run and verified in Verus for all inputs, loops "
             "by invariants; every public form is proved by Kani for all inputs against the core's contract.",
        verus=["div", "facts"],
        technique="contract-based deductive verification: Verus contracts, loop invariants and lemmas on the extracted division "
                  "core; Kani/CBMC full-domain contracts on every public form",
        trusted=["u128::leading_zeros/overflowing_add/overflowing_sub and the U256 items used by the core (shifts, comparisons, "
                 "word access): contracts in verus/prelude.rs, the U256 ones proved by C05, C07, C09"],
    ),
    "C04": dict(
        modules=["c04"], verus=["facts"],
        functions=["idivmod4, idiv2, idiv3, irem2, irem3, I256::wrapping_div_rem_euclid",
                   "I256: every impl of Div, Rem, DivAssign, RemAssign; checked_, wrapping_, overflowing_, saturating_ "
                   "div/rem/div_euclid/rem_euclid/div_rem/div_rem_euclid"],
        note="Every signed form is proved for all inputs against the contract of the unsigned core udivmod4, "
             "which C03 verifies. I256::MIN / -1 by the operators is unspecified and not claimed.",
        trusted=["the definition of the signed quotient by magnitudes and signs (harness/src/arith.rs, idiv_with, euclid)",
                 "the contract of udivmod4 (C03)"],
    ),
    "C05": dict(
        modules=["c05"],
        functions=["shl2, shl3, sar2, sar3, shr2, shr3, rol3, ror3",
                   "U256/I256: Shl, Shr, ShlAssign, ShrAssign for every integer amount type, value and reference; "
                   "checked_, overflowing_, wrapping_ shl/shr; rotate_left, rotate_right"],
        note="Every contract is discharged for all values and all amounts, in both build configurations.",
    ),
    "C06": dict(
        modules=["c06"],
        functions=["U256/I256: BitAnd, BitOr, BitXor, Not and assign forms; count_ones, count_zeros, leading_/trailing_ "
                   "zeros/ones; reverse_bits, swap_bytes; U256::is_power_of_two, (checked_)next_power_of_two"],
        note="Every contract is discharged for all inputs, in both build configurations.",
    ),
    "C07": dict(
        modules=["c07"],
        functions=["U256/I256: PartialEq, Eq, PartialOrd, Ord (and against u128/i128 on either side), min, max, clamp, Hash"],
        note="Every contract is discharged for all inputs, in both build configurations.",
    ),
    "C08": dict(
        modules=["c08"],
        functions=["From/TryFrom between U256, I256 and every primitive integer and bool; AsU256, AsI256; as_* methods"],
        note="Every contract is discharged for all inputs, in both build configurations.",
    ),
    "C09": dict(
        modules=["c09"],
        functions=["to_/from_ be/le/ne bytes, to_/from_ be/le, from_words, into_words, low, high, low_mut, high_mut"],
        note="Every contract is discharged for all inputs, in both build configurations.",
    ),
    "C10": dict(
        modules=["c10"],
        functions=["AsU256/AsI256 for f32 and f64"],
        note="Every contract is discharged for every bit pattern, in both build configurations; the multiplication by the "
             "sign that as_i256 performs is replaced by its contract for the factors 0, 1 and -1 (C02).",
    ),
    "C11": dict(
        modules=["c11"], kani=False, verus=["run"], secs=3, iters=10**7,
        technique="contract-based deductive verification: Verus contracts and loop invariants on the extracted functions",
        functions=["parse::can_not_overflow, parse::from_str_radix, parse::from_str_prefixed (for U256 and for I256), "
                   "FromStrRadixHelper for U256/I256, FromStr::from_str, U256/I256::from_str_radix, from_str_hex, from_str_prefixed"],
        note="The functions are extracted from the source on every run, monomorphised for both types and verified in Verus for "
             "every text of every length, every radix and prefix: Ok exactly on a numeral of the form whose value fits, with that "
             "value, and the documented error kind otherwise. Where an overflow precedes an invalid digit either kind is allowed.",
        trusted=["char::to_digit, slice::strip_prefix, str::as_bytes, size_of, error::pie, and the checked and plain arithmetic, "
                 "comparison and conversion from u32 of U256 and I256 (C01, C02, C07, C08), as contracts in verus/parse_run.rs"],
    ),
    "C12": dict(
        modules=["c12"], kani=False, verus=["const"], secs=3, iters=10**7,
        technique="contract-based deductive verification: Verus contracts and loop invariants on the extracted functions",
        functions=["parse::const_from_str_prefixed (with its inner check, add, mul), U256::const_from_str_prefixed, "
                   "I256::const_from_str_prefixed, I256::signum128"],
        note="The functions are extracted from the source on every run and verified in Verus for every text of every length: "
             "what a literal spells is defined on its bytes, a refusal is allowed only where the text is malformed or out of "
             "range, and a value returned is the one spelled. Texts without a single digit are left undecided.",
        trusted=["u8::is_ascii_whitespace, u128::overflowing_add/overflowing_mul, i128::signum, and the word access of U256 and "
                 "I256 (C09), as contracts in verus/parse_const.rs and verus/prelude.rs",
                 "that the macros and the public const functions only call the verified ones (checked natively)"],
    ),
    "C13": dict(
        modules=["c13"], thorough_modules=["c13deep"], harness_timeout=400,
        functions=["fmt::fmt_u256, GenericRadix::fmt_u256 and Display, LowerHex, UpperHex, Octal, Binary of U256 and I256 "
                   "(up to the call of Formatter::pad_integral)"],
        bounded=["Binary in the quick tier: values below 2^32 (the thorough tier covers every value)"],
        trusted=["core::fmt::Formatter::pad_integral (padding, sign and prefix), compared natively with the primitive integers",
                 "the contract of udivmod4 for the divisors 2, 8, 16 and 10000 (C03)"],
        note="What is handed to Formatter::pad_integral is proved for every value: decimal against the contract of the division "
             "by 10000, radix digits against the bits. Padding is the standard library's and only searched natively, as is "
             "scientific notation, which is claimed for values that are exact as an f64.",
    ),
    "C14": dict(
        modules=["c14"], thorough_modules=["c14deep"], harness_timeout=500, secs=1, features=["serde"], verus=["run"],
        technique="contract-based deductive verification: Kani/CBMC full-domain contracts on the serializers and visitors, Verus "
                  "contracts on the parsers they call",
        functions=["Serialize/Deserialize of U256, I256; serde::{decimal, prefixed, permissive}: serialize, deserialize",
                   "FormatVisitor::{visit_str, visit_bytes}, PermissiveVisitor (every visit_* method), FormatBuffer",
                   "the parsers of C11 and the formatting of C13"],
        note="Serialization in two steps, each for every value: what the form hands to Formatter::pad_integral, and that what that "
             "function writes is what the serializer receives. Deserialization: the text (of any length) reaches the form's "
             "parser unchanged and its answer is returned; the parsers are verified in Verus (C11). Numbers and floats in the "
             "permissive form: all bit patterns. Not decided: negative numbers as U256, floats equal to the bounds +-2^24, +-2^53. "
             "The prefixed and permissive serializers' digits are compared digit by digit in the thorough tier only; the quick "
             "tier proves that the value they format is the value given.",
        trusted=["core::fmt::Formatter::pad_integral without a width writes sign, prefix and digits",
                 "core::str::from_utf8; the serde data format calls the visitor with its content",
                 "the contract of udivmod4 for the divisors 16 and 10000 (C03)",
                 "the assumptions of C11 (verus/parse_run.rs)"],
    ),
    "C15": dict(
        modules=["c15"], features=["serde"],
        functions=["serde::bytes::{le,be,ne}, serde::compressed_bytes::{le,be,ne}: serialize, deserialize (bytes and sequences)"],
        bounded=["lengths that must be rejected: up to 36 bytes"],
        note="Every contract is discharged for all values and all byte strings, through a serializer and deserializers of the "
             "harness; lengths beyond 36 are not explored.",
    ),
    "C17": dict(
        modules=["c17"], phases=[llvmir.phase],
        technique="contract-based deductive verification: contracts on the generated LLVM IR and on the compiled forwarding functions, "
                  "verification conditions discharged by z3/cvc5; Kani/CBMC contracts on the native backend",
        functions=["intrinsics.ll: every @__ethnum_* function the build script generates",
                   "ethnum::intrinsics::*: the forwarding functions of src/intrinsics/llvm.rs (as compiled)",
                   "ethnum::intrinsics::*: the native backend (the same contracts)"],
        note="The IR is generated by the crate's own build on every run; each function is verified for all operands against the "
             "contract that Kani proves of the native one, poison and the attributes the optimizer relies on included; each "
             "forwarding function is verified against the same contract by the contract of what it calls. What follows the IR "
             "(optimizer, code generation) is trusted and only run natively. Amounts of shifts: below 256, as every caller ensures (C05).",
        trusted=["machinery/llvmir.py: parser and semantics of the LLVM IR subset, contracts of LLVM's intrinsics",
                 "z3 4.8.12, cvc5 1.1.2", "LLVM after the IR (optimizer and code generation)",
                 "rustc 1.90.0 as the generator of the IR template", "umulddi3 = the product of two 128-bit words (C02)"],
    ),
    "C18": dict(
        modules=["c18"], harness_timeout=500,
        functions=["U256::as_f64, U256::as_f32, I256::as_f64, I256::as_f32"],
        note="Every contract is discharged for all values (CBMC's bit-exact IEEE-754 semantics), in both build configurations; the "
             "I256 forms against the proved contract of U256::as_f64. Which of the two neighbours an inexact value gives is not "
             "specified: as_f64 is not always correctly rounded.",
        trusted=["CBMC's model of u128-to-float conversion and of f64 addition and multiplication (round to nearest even)"],
    ),
    "C16": dict(
        modules=["c16"], kani=False, verus=["pow_u", "pow_i"], secs=3, iters=10**7,
        technique="contract-based deductive verification: Verus contracts and loop invariants on the extracted methods",
        functions=["U256/I256: pow, wrapping_pow, overflowing_pow, checked_pow, saturating_pow"],
        note="The ten methods are extracted from the source on every run and verified in Verus for all bases and exponents, "
             "their loops by invariants over integer powers, against the contracts of the multiplications they call (C02); "
             "`pow` is verified under the three meanings of `*` (no overflow, panic on overflow, wrapping).",
        trusted=["the contracts of multiplication (C02) and of I256 < i128 (C07), the values of ONE, MIN and MAX, in verus/pow.rs"],
    ),
}

NOT_APPLICABLE = {}
