"""Contracts, invariants and hints woven into the extracted functions."""

import os
import re

from core import VERIF

DIVMOD = "src/intrinsics/native/divmod.rs"


def f(s, **kw):
    for k, v in kw.items():
        s = s.replace("{" + k + "}", v)
    return s


LOOP = """    invariant_except_break
        rhat < b64(), q{k} <= b64() + 1, b64() * rhat + un{k} <= u128::MAX,
        q{k} < b64() ==> q{k} * vn0 <= u128::MAX,
    invariant
        B == b64(), {U} < v.v, un{k} < b64(), v.v == vn1.v * b64() + vn0, b64() / 2 <= vn1.v < b64(), vn0 < b64(),
        q{k} * vn1.v + rhat == {U}, qt(b64(), {U} as int, un{k} as int, v.v as int) <= q{k}, rhat < 2 * b64(),
        0 <= qt(b64(), {U} as int, un{k} as int, v.v as int) < b64(),
    ensures
        q{k} < b64(), q{k} * vn0 <= b64() * rhat + un{k},
    decreases q{k},"""
ARGS = "b64(), {U} as int, un{k} as int, v.v as int, vn1.v as int, vn0 as int, q{k} as int, rhat as int"

UDIV = [
    ("start", "udiv256_by_128_to_128", "let ghost v0 = v; proof { assert(1u128 << 64u32 == 0x1_0000_0000_0000_0000u128) by(bit_vector); }"),
    ("loop", 1, f(LOOP, U="un21", k="0")),
    ("loop", 0, f(LOOP, U="un128", k="1")),
]
for k, U, n in (("1", "un128", 0), ("0", "un21", 1)):
    a = f(ARGS, U=U, k=k)
    UDIV += [
        ("before", r"\brhat = |let mut rhat = " if n == 0 else r"(?<!mut )\brhat = ", 0,
         f("proof { digit_quotient({U} as int, vn1.v as int, q{k} as int); }", U=U, k=k)),
        ("after", r"\brhat = ", n,
         f("proof { digit_entry(" + a + "); digit_bounds(q{k} as int, vn0 as int, rhat as int, un{k} as int); }", U=U, k=k)),
        ("loopbody", n,
         "proof { digit_step(%s); digit_bounds((q%s - 1) as int, vn0 as int, (rhat + vn1.v) as int, un%s as int); }" % (a, k, k)),
    ]
UDIV += [
    # normalisation
    ("before", r"\bvn1 = ", 0, """
    let ghost ps = p2(s as nat);
    proof {
      assert(ps >= 1 && v.v == v0.v * ps && un128 * b128() + un10 == (u1 * b128() + u0) * ps && un128 < v.v
             && v.v >= b128() / 2 && (v.v >> 64u32) as int >= b64() / 2 && (v.v >> 64u32) < b64() && (v.v >> 64u32) != 0
             && (v.v & 0xFFFF_FFFF_FFFF_FFFFu128) < b64() && v.v == (v.v >> 64u32) * b64() + (v.v & 0xFFFF_FFFF_FFFF_FFFFu128)
             && (un10 & 0xFFFF_FFFF_FFFF_FFFFu128) < b64() && (un10 >> 64u32) < b64()
             && un10 == (un10 >> 64u32) * b64() + (un10 & 0xFFFF_FFFF_FFFF_FFFFu128)) by {
        p2_pos(s as nat);
        if s > 0 {
            norm_bound(u1 as int, u0 as int, v0.v as int, ps, b128());
            shifted_words(u1, u0, s, un128, un10);
            lemma_shl(v0.v, s);
        } else {
            assert(p2(0) == 1);
            times_one(v0.v as int);
            times_one(u1 * b128() + u0);
        }
        norm_top(u1 as int, u0 as int, v0.v as int, ps, un128 as int, un10 as int);
        split64(v.v);
        split64(un10);
        lemma_top_digit(v.v);
      }
    }"""),
    ("before", r"\bun21 = ", 0, f("proof { digit_exit(" + ARGS + "); wrap_words(un128, un1, v.v, q1, B); }", U="un128", k="1")),
    ("after", r"\bun21 = ", 0, "proof { assert(un21 as int == un128 * b64() + un1 - q1 * v.v); }"),
    ("before", r"\*r = ", 0, f("proof { digit_exit(" + ARGS + "); wrap_words(un21, un0, v.v, q0, B); }", U="un21", k="0") + """
    let ghost rr: u128 = (un21 * b64() + un0 - q0 * v.v) as u128;
    proof {
        assert(q1 * b64() + q0 == (u1 * b128() + u0) / v0.v as int && (rr >> s) as int == (u1 * b128() + u0) % v0.v as int) by {
            lemma_shr(rr, s);
            two_digits(un128 as int, un1 as int, un0 as int, v.v as int, q1 as int, q0 as int, un21 as int, rr as int);
            unnormalise((u1 * b128() + u0) as int, v0.v as int, ps, (q1 * b64() + q0) as int, rr as int, (rr >> s) as int);
        }
    }"""),
    ("sig", "udiv256_by_128_to_128", "ret", """    requires v.v != 0, u1 < v.v
    ensures ret == (u1 * b128() + u0) / v.v as int, *final(r) == (u1 * b128() + u0) % v.v as int"""),
    ("sig", "shl_nz", "ret", "    requires n < 128, x.v * p2(n as nat) <= u128::MAX, x.v != 0 ensures ret.v == x.v * p2(n as nat)"),
    ("start", "shl_nz", "proof { lemma_shl(x.v, n); p2_pos(n as nat); assert(x.v * p2(n as nat) >= 1) by(nonlinear_arith) requires x.v >= 1, p2(n as nat) >= 1; }"),
    ("sig", "shr_nz", "ret", "    requires n < 128, (x.v >> n) != 0 ensures ret.v == x.v >> n"),
]

# ---- div_mod_knuth: u / v with v >= 2^128, one quotient digit in base 2^128

KARGS = "b128(), un, gu0 as int, v.val(), v_n_1 as int, v_n_2 as int"
KNUTH = [
    ("sig", "full_shl", "ret", """    requires shift < 128
    ensures uval(ret@) == a.val() * p2(shift as nat), ret[2] < p2(shift as nat)"""),
    ("after", r"\bu_hi = ", 0, "proof { full_shl_words(*a, shift, u_lo, u_hi); }"),
    ("sig", "full_shr", "ret", """    requires shift < 128, u[2] < p2(shift as nat)
    ensures ret.val() * p2(shift as nat) <= uval(u@) < ret.val() * p2(shift as nat) + p2(shift as nat)"""),
    ("tail", "full_shr", "proof { full_shr_words(u[0], u[1], u[2], shift, res); }"),
    ("start", "fullmul_u128", "broadcast use mul128_fits;"),
    ("before", r"\bw_hi = |let w_hi\b", 0, "proof { split64(t); shl64(t); mul_digits(a0 as int, a1 as int, b0 as int, b1 as int, a as int, b as int); }"),
    ("tail", "fullmul_u128", "proof { mul_digits(a0 as int, a1 as int, b0 as int, b1 as int, a as int, b as int); top_word(a as int, b as int, w_hi as int, w_lo as int); }"),
    ("start", "fullmul_u256_u128", "proof { mul_words(*a, b); }"),
    ("after", r"let mut acc\b", 0, "proof { assert(acc[0] == 0 && acc[1] == 0 && acc[2] == 0); }"),
    ("loop", 0, """    invariant_except_break
        q_hat * v_n_1 + r_hat == un, qt(b128(), un, gu0 as int, v.val()) <= q_hat,
    invariant
        v.val() == v_n_1 * b128() + v_n_2, b128() / 2 <= v_n_1, 0 <= un < v.val(), gu0 == u[0],
        0 <= qt(b128(), un, gu0 as int, v.val()),
        qt(b128(), un, gu0 as int, v.val()) < b128(),
    ensures q_hat == qt(b128(), un, gu0 as int, v.val()), 0 <= un * b128() + gu0 - q_hat * v.val() < v.val(),
    decreases q_hat,"""),
    ("loopbody", 0, f("""proof {
        if q_hat * v_n_2 > b128() * r_hat + gu0 {
            digit_step({K}, q_hat as int, r_hat as int);
            if r_hat + v_n_1 >= b128() { digit_exit({K}, q_hat - 1, r_hat + v_n_1); }
        } else {
            digit_exit({K}, q_hat as int, r_hat as int);
        }
    }""", K=KARGS)),
    ("before", r"\bloop\b", 0, f("""proof {
        lemma_fundamental_div_mod(un, v_n_1 as int);
        assert(v_n_1 * q_hat == q_hat * v_n_1) by(nonlinear_arith);
        digit_entry({K}, q_hat as int, r_hat as int);
    }""", K=KARGS)),
    ("before", r"\blet v = ", 0, "proof { norm_fits(*v, shift); }"),
    ("after", r"\blet v_n_2\b", 0, """let ghost gu0 = u[0];
    let ghost un = u[2] * b128() + u[1];
    let ghost g = u;
    let ghost ps = p2(shift as nat);
    proof {
        assert(v.val() == v_n_1 * b128() + v_n_2 && b128() / 2 <= v_n_1 && 0 <= un < v.val() && u[2] < v_n_1) by {
            norm_two(*u0_, *v0_, shift, v, u[2], u[1], u[0]);
        }
        assert(v_n_1 >> 127u32 == 1) by(bit_vector) requires v_n_1 >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128;
        assert(uval(u@) == un * b128() + gu0);
    }"""),
    ("before", r"if c \{", 0, """proof {
        assert(uval(u@) - (if c { b128() * b128() * b128() } else { 0 }) == uval(g@) - uval(q_hat_v@));
        assert(v.val() * q_hat == q_hat * v.val()) by(nonlinear_arith);
        assert(!c && u[2] == 0 && uval(u@) == un * b128() + gu0 - q_hat * v.val());
    }"""),
    ("tail", "div_mod_knuth", """proof {
        p2_pos(shift as nat);
        assert(q.val() == q_hat);
        unnormalise(u0_.val(), v0_.val(), ps, q_hat as int, uval(u@), remainder.val());
    }"""),
    ("start", "div_mod_knuth", """proof {
        assert(u.0[1] != 0) by {
            assert(v.0[1] >= 1 && v.val() >= b128());
            if u.0[1] == 0 { assert(u.val() == u.0[0]); }
        }
    }
    let ghost u0_ = u; let ghost v0_ = v;"""),
    ("sig", "split_u128_to_u128", "ret", "    ensures a == ret.1 * b64() + ret.0, ret.0 < b64(), ret.1 < b64()"),
    ("start", "split_u128_to_u128", "proof { split64(a); }"),
    ("sig", "fullmul_u128", "ret", "    ensures ret.1 * b128() + ret.0 == a * b, ret.1 <= b128() - 2"),
    ("after", r"\bacc\[2\] =(?!=)", 0, """proof {
        let (x, y) = (a.0[1] * b, a.0[0] * b);
        assert(x == carry * b128() + lo);
        let c1 = (y - acc[0]) / b128();
        let w = acc[2] * b128() + acc[1];
        assert(c1 * b128() == y - acc[0] && w == x + c1);
        assert(w * b128() == x * b128() + c1 * b128()) by(nonlinear_arith) requires w == x + c1;
    }"""),
    ("sig", "fullmul_u256_u128", "ret", "    ensures uval(ret@) == a.val() * b"),
    ("sig", "add_carry", "ret", "    ensures ret.0 + (if ret.1 { b128() } else { 0 }) == a + b + (if c { 1int } else { 0 })"),
    ("sig", "sub_carry", "ret", "    ensures ret.0 - (if ret.1 { b128() } else { 0 }) == a - b - (if c { 1int } else { 0 })"),
    ("sig", "div_mod_knuth", "ret", """    requires v.hi() != 0, u.val() >= v.val()
    ensures ret.0.val() == u.val() / v.val(), ret.1.val() == u.val() % v.val()"""),
]
UDIVMOD = [
    ("start", "udivmod4", """proof {
        or_zero(a.0[1], b.0[1]);
        if a.val() < b.val() { val_bound(*a); small_div(a.val(), b.val()); }
        if b.0[1] == 0 { long_div(a.0[1] as int, a.0[0] as int, b.0[0] as int); }
        if a.0[1] < b.0[0] { small_div(a.0[1] as int, b.0[0] as int); }
    }"""),
    ("sig", "udivmod4", "ret", """    requires b.val() != 0
    ensures final(res).v.val() == a.val() / b.val(), rem matches Some(r) ==> final(r).v.val() == a.val() % b.val()"""),
]

# ---- exponentiation (C16)

UAPI, IAPI = "src/uint/api.rs", "src/int/api.rs"


def pow_spec(fn, signed, inv, sig):
    """Contract of one `pow`: acc = self^m, base = self^d, e0 = m + d * exp."""
    fit = "fi" if signed else "fu"
    mono = "mono_all(b0, m, d, e0, exp as int);"
    steps = "proof { parity(); step(b0, m, d, e0, exp as int, acc.val(), base.val()); " + mono + " }"
    out = [("sig", fn, "ret", sig), ("attr", fn, "#[verifier::loop_isolation(false)]")]
    common = "m + d * exp == e0, d >= 1, b0 == self.val(), " + ("e0 >= 1 && exp >= 1, " if signed else "b0 >= 0, ")
    out += [
        ("afterloop", 0, steps),
        ("loopbody", 0, steps + """
            proof { if exp % 2 == 1 { m = m + d; } d = 2 * d; }"""),
        ("loop", 0, f"    invariant {common} {inv}\n decreases exp,"),
        ("start", fn, """let ghost b0 = self.val(); let ghost e0 = exp as nat; let ghost mut m: nat = 0; let ghost mut d: nat = 1;
            proof { parity(); base_facts(b0); if exp == 0 { lemma_pow0(b0); } UR }""".replace("UR", "" if signed else "u_range(self);")),
    ]
    return out


EXACT = "acc.val() == pow(b0, m), base.val() == pow(b0, d),"
EXACT_AND = "acc.val() == pow(b0, m) && base.val() == pow(b0, d)"
CONG = "cong(acc.val(), pow(b0, m)), cong(base.val(), pow(b0, d)),"


def pow_fns(signed):
    fit = "fi" if signed else "fu"
    P = "pow(self.val(), exp as nat)"
    path = IAPI if signed else UAPI
    chk = f"    ensures ret is Some ==> ret->0.val() == {P}, ret is None ==> !{fit}({P})"
    ovf = f"""    ensures cong(ret.0.val(), {P}), ret.1 == !{fit}({P}), !ret.1 ==> ret.0.val() == {P}"""
    return [
        (path, "checked_pow", pow_spec("checked_pow", signed, EXACT, chk)),
        (path, "wrapping_pow", pow_spec("wrapping_pow", signed, CONG, f"    ensures cong(ret.val(), {P})")),
        (path, "overflowing_pow", pow_spec("overflowing_pow", signed, CONG + f" !overflown ==> ({EXACT_AND}), overflown ==> !{fit}(pow(b0, e0)),", ovf)),
        (path, "pow", pow_spec("pow", signed, CONG + f" mode() <= 1 ==> ({EXACT_AND}), mode() == 0 ==> {fit}(pow(b0, e0)),",
                               f"""    requires mode() == 0 ==> {fit}({P})
    ensures mode() <= 1 ==> ret.val() == {P}, cong(ret.val(), {P})""")),
        (path, "saturating_pow", [
            ("start", "saturating_pow", "proof { parity(); extremes(); mod_big(); pow_sign(self.val(), exp as nat); }"),
            ("sig", "saturating_pow", "ret",
             f"    ensures {fit}({P}) ==> ret.val() == {P}, !{fit}({P}) ==> ret.val() == " +
             (f"(if {P} < 0 {{ -mod256() / 2 }} else {{ mod256() / 2 - 1 }})" if signed else "mod256() - 1")),
        ]),
    ]


# ---- compile-time parsing (C12)

PARSE = "src/parse.rs"
CONST = [
    ("start", "check", ""),
    ("sig", "check", "", "    requires overflow ==> rejectable() ensures !overflow"),
    ("start", "add", "proof { val_lt(a); }"),
    ("sig", "add", "ret", """    requires a.val() + b >= mod256() ==> rejectable()
    ensures ret.val() == a.val() + b"""),
    ("after", r"let \(lh, ll\)", 0, """proof { split_mask(lo); small_times(ll as int, r as int); small_times(lh as int, r as int);
        word_product(a, hi as int, lo as int, lh as int, ll as int, r as int); }"""),
    ("after", r"let lh = lh", 0, "proof { shl64_split(lh); if hi * r >= b128() { over(hi * r, a.val() * r); } }"),
    ("sig", "mul", "ret", """    requires r <= 16, a.val() * r >= mod256() ==> rejectable()
    ensures ret.val() == a.val() * r"""),
    ("loopbody", 0, """proof {
        let n = bytes.len() as int;
        if digits_ok(bytes@, at, n, rx) {
            upto_mono(bytes@, at, i as int, n, rx);
            upto_mono(bytes@, at, i + 1, n, rx);
            assert(ws(bytes@[i as int]) || dig(bytes@[i as int], rx) >= 0);
        }
    }"""),
    ("loop", 0, """    invariant at <= i <= bytes.len(), rx == radix, rx == lit_radix(bytes@, start as int), at == lit_at(bytes@, start as int),
        rx == 2 || rx == 8 || rx == 10 || rx == 16, bytes.len() > start,
        !lit_ok(bytes@, start as int) ==> rejectable(),
        !fu(lit_val(bytes@, start as int)) ==> rejectable(),
        digits_ok(bytes@, at, i as int, rx), value.val() == upto(bytes@, at, i as int, rx),
    decreases bytes.len() - i,"""),
    ("after", r"let mut value\b", 0, "let ghost at = i as int; let ghost rx = radix as int;"),
    ("tail", "const_from_str_prefixed", "proof { val_lt(value); }"),
    ("sig", "const_from_str_prefixed", "ret", """    requires !lit_any(bytes@, start as int) ==> rejectable(), !lit_ok(bytes@, start as int) ==> rejectable(),
        !fu(lit_val(bytes@, start as int)) ==> rejectable(),
    ensures bytes.len() > start, lit_any(bytes@, start as int) ==> lit_ok(bytes@, start as int) && fu(lit_val(bytes@, start as int))
        && ret.val() == lit_val(bytes@, start as int)"""),
]

U_CONST = [
    ("sig", "const_from_str_prefixed", "ret", """    requires src.bytes().len() == 0 ==> rejectable(),
        src.bytes().len() > 0 && !(lit_any(src.bytes(), plus(src.bytes())) && lit_ok(src.bytes(), plus(src.bytes()))
            && fu(lit_val(src.bytes(), plus(src.bytes())))) ==> rejectable(),
    ensures src.bytes().len() > 0, lit_any(src.bytes(), plus(src.bytes())) ==> lit_ok(src.bytes(), plus(src.bytes()))
        && ret.val() == lit_val(src.bytes(), plus(src.bytes()))"""),
]
I_CONST = [
    ("start", "const_from_str_prefixed", "proof { halves(); if lit_ok(src.bytes(), sign(src.bytes())) { lit_nonneg(src.bytes(), sign(src.bytes())); } }"),
    ("before", r"I256::from_words\(hi as _", 0, "proof { as_signed(hi); as_signed(lo); }"),
    ("after", r"let \(hi, lo\) = uint\.into_words", 0, "proof { negation(hi, lo); }"),
    ("after", r"let int_ = ", 0, "proof { signed_range(int_); val_lt(uint); }"),
    ("sig", "const_from_str_prefixed", "ret", """    requires src.bytes().len() == 0 ==> rejectable(),
        src.bytes().len() > 0 && !(lit_any(src.bytes(), sign(src.bytes())) && lit_ok(src.bytes(), sign(src.bytes()))
            && fi(lit_signed(src.bytes()))) ==> rejectable(),
    ensures src.bytes().len() > 0, lit_any(src.bytes(), sign(src.bytes())) ==> lit_ok(src.bytes(), sign(src.bytes()))
        && ret.val() == lit_signed(src.bytes())"""),
]
SIGNUM = [
    ("tail", "signum128", "proof { signed_range(self); sign_flag(-1i128, true); sign_flag(0i128, true); sign_flag(1i128, true); }"),
    ("sig", "signum128", "ret", "    ensures ret == (if self.val() < 0 { -1int } else if self.val() == 0 { 0 } else { 1 })"),
]

# ---- run-time parsing (C11)

def mono(ty):
    def f(t):
        t = re.sub(r"<\s*T\s*:\s*FromStrRadixHelper\s*>", "", t)
        t = re.sub(r"(fn\s+can_not_overflow)\s*<\s*T\s*>", r"\1", t)
        t = re.sub(r"(can_not_overflow)\s*::\s*<\s*T\s*>", r"\1", t)
        t = re.sub(r"\bT::MIN\b", f"<{ty} as FromStrRadixHelper>::MIN_()", t)
        t = re.sub(r"\bT::(?=checked_|from_u32)", f"<{ty} as FromStrRadixHelper>::", t)
        t = re.sub(r"\bT\b", ty, t)
        return t
    return f


def helper(ty):
    def f(t):
        t = t.replace("$crate::parse::", "").replace("$int", ty)
        t = re.sub(r"const\s+MIN\s*:\s*Self\s*=\s*([^;]*);", r"fn MIN_() -> Self { \1 }", t)
        t = re.sub(r"Self::checked_(add|sub|mul)\b", r"Self::i_checked_\1", t)
        return t
    return f


def helper_spec(ty):
    def f(t):
        s = "true" if ty == "I256" else "false"
        i = t.index("{")
        return t[:i + 1] + f" open spec fn tv(self) -> int {{ self.val() }} open spec fn sg() -> bool {{ {s} }} " + t[i + 1:]
    return f


def wrapper(mod):
    def f(t):
        t = re.sub(r"(?:\$?crate::)?\bparse::from_str_radix", f"crate::{mod}::from_str_radix", t)
        t = re.sub(r"(?:\$?crate::)?\bparse::from_str_prefixed", f"crate::{mod}_b::from_str_prefixed", t)
        return t.replace("Self::Err", "ParseIntError").replace("::core::num::ParseIntError", "ParseIntError")
    return f


def answers(fn, pre, radix):
    return [("sig", fn, "ret", f"    ensures answer(outcome(ret), {'s' if fn == 'from_str' else 'src'}.bytes(), SIGNED, {pre}, {radix})")]


WRAPPERS = [
    ("src/macros/parse.rs", "from_str", answers("from_str", "Seq::empty()", "10")),
    ("src/@/api.rs", "from_str_radix", [("sig", "from_str_radix", "ret", """    requires !(2 <= radix <= 36) ==> rejectable()
    ensures 2 <= radix <= 36, answer(outcome(ret), src.bytes(), SIGNED, Seq::empty(), radix as int)""")]),
    ("src/@.rs", "from_str_hex", answers("from_str_hex", "pfx(120)", "16")),
    ("src/@.rs", "from_str_prefixed", [("sig", "from_str_prefixed", "ret", "    ensures prefixed(outcome(ret), src.bytes(), SIGNED)")]),
]


RUN = [
    ("attr", "from_str_radix", "#[verifier::loop_isolation(false)]"),
    ("sig", "from_str_radix", "ret", """    requires !(2 <= radix <= 36) ==> rejectable()
    ensures 2 <= radix <= 36, answer(outcome(ret), src.bytes(), SIGNED, opt_bytes(prefix), radix as int)"""),
    ("before", r"if src\.is_empty\(\)", 0, """let ghost text = src.bytes(); let ghost pre = opt_bytes(prefix); let ghost rx = radix as int; let ghost s = sgn(text, SIGNED);
    proof { early(text, SIGNED, pre, rx); }"""),
    ("after", r"let \(is_positive", 0, "proof { assert(prefixed_digits@ =~= unsigned_part(text, SIGNED)); assert(is_positive == (s == 1)); assert(s == 1 || s == -1); }"),
    ("after", r"let digits\b", 0, "proof { assert(digits@ =~= digits_of(text, SIGNED, pre)); begin(text, SIGNED, pre, rx, digits@, s); }"),
    ("tail", "from_str_radix", "proof { finish(text, SIGNED, pre, rx, digits@, s, result.tv()); }"),
] + [
    ("loopbody", k, """proof { turn(text, SIGNED, pre, rx, digits@, at_ as int, s, result.tv(), digc(digits@[at_ as int], rx));
        assert((digits[at_ as int] as char) as u32 == digits[at_ as int] as u32); }""") for k in range(4)
] + [
    ("loop", k, """    invariant 0 <= at_ <= digits.len(), s == %s, alive(text, SIGNED, pre, digits@),
        good(digits@, at_ as int, rx), result.tv() == sval(digits@, at_ as int, rx, s), fits(SIGNED, result.tv()),
    decreases digits.len() - at_,""" % ("1" if k % 2 == 0 else "-1")) for k in range(4)
]
PREFIXED = [
    ("start", "from_str_prefixed", "proof { refusals(src.bytes(), SIGNED); }"),
    ("sig", "from_str_prefixed", "ret", "    ensures prefixed(outcome(ret), src.bytes(), SIGNED)"),
]
CANT = [("sig", "can_not_overflow", "ret", """    requires is_signed_ty == SIGNED
    ensures ret ==> radix <= 16 && digits.len() <= (if SIGNED { 63int } else { 64 })""")]


def run_fns():
    out = []
    for ty, m, s in (("U256", "uint", "false"), ("I256", "int", "true")):
        mod = m + "_parse"

        def fill(spec):
            return [tuple(x.replace("SIGNED", s) if isinstance(x, str) else x for x in d) for d in spec]
        out += [
            ("src/macros/parse.rs", None, [], {"block": r"impl\s+\$crate::parse::FromStrRadixHelper\s+for\s+\$int",
                                               "what": f"impl FromStrRadixHelper for {ty}", "pre": [helper(ty)], "post": [helper_spec(ty)]}),
            (PARSE, "can_not_overflow", fill(CANT), {"pre": [mono(ty)], "mod": mod + "_a", "use": ["mem"]}),
            (PARSE, "from_str_radix", fill(RUN), {"pre": [mono(ty)], "mod": mod, "use": [mod + "_a::can_not_overflow"]}),
            (PARSE, "from_str_prefixed", fill(PREFIXED), {"pre": [mono(ty)], "mod": mod + "_b", "use": [mod + "::from_str_radix"]}),
        ]
        out += [(p.replace("@", m), fn, fill(spec), {"pre": [wrapper(mod)], "impl": ty}) for p, fn, spec in WRAPPERS]
    return out


FACTS = os.path.join(VERIF, "harness/src/facts.rs")


def sig(fn, clauses, *more):
    return (FACTS, fn, [("sig", fn, "ret", clauses)] + list(more))


MUL = "lo.val() == (a.val() * b.val()) % m256()"
FACT_FNS = [
    sig("mul128", "    ensures ret.0 * b128() + ret.1 == a * b",
        ("after", r"\blet b0\b", 0, """proof {
            split64(a); split64(b);
            u128_prod(a0 as int, b0 as int); u128_prod(a0 as int, b1 as int);
            u128_prod(a1 as int, b0 as int); u128_prod(a1 as int, b1 as int);
            assert(b64() * b64() == b128());
        }"""),
        ("after", r"\blet p11\b", 0, "proof { split64(p00); split64(p01); split64(p10); }"),
        ("after", r"\blet mid\b", 0, """proof {
            split64(mid); pack(p00, mid);
            u128_sum(p11 as int, (p01 >> 64u32) as int, (p10 >> 64u32) as int, (mid >> 64u32) as int, a1 as int, b1 as int);
        }"""),
        ("tail", "mul128", """proof {
            school(a1 as int, a0 as int, b1 as int, b0 as int, b64(), p00 as int, p01 as int, p10 as int, p11 as int,
                (p00 >> 64u32) as int, (p00 & m) as int, (p01 >> 64u32) as int, (p01 & m) as int,
                (p10 >> 64u32) as int, (p10 & m) as int, mid as int, (mid >> 64u32) as int, (mid & m) as int);
        }""")),
    sig("umul", "    ensures ret.0.val() == (a.val() * b.val()) % m256(), ret.1 == (a.val() * b.val() >= m256())",
        ("tail", "umul", """proof {
            words_product(a.0[1] as int, a.0[0] as int, b.0[1] as int, b.0[0] as int, b128(), p.0 as int, p.1 as int,
                h1.0 as int, h1.1, h2.0 as int, h2.1, s.0 as int, s.1, h.0 as int, h.1);
        }""")),
    sig("ult", "    ensures ret == (a.val() < b.val())", ("start", "ult", "proof { u_bound(a); u_bound(b); ult_words(a, b); }")),
    sig("same", "    ensures ret == (a.val() == b.val()), ret == (a.0[0] == b.0[0] && a.0[1] == b.0[1])",
        ("start", "same", "proof { u_bound(a); u_bound(b); }")),
    sig("is_word", "    ensures ret == (a.val() == w)", ("start", "is_word", "proof { u_bound(a); u_bound(U256([w, 0])); }")),
    sig("is_top", "    ensures ret == (2 * a.val() == m256())",
        ("start", "is_top", "proof { u_bound(a); top_value(a); }")),
    sig("sign", "    ensures ret == (a.0[1] >= top128())"),
    sig("negw", "    ensures ret.val() == (-a.val()) % m256()",
        ("start", "negw", "proof { wrap_words_add(a.0[0], true); wrap_words_add(a.0[1], true); neg_words(a); }")),
    sig("mag", "    ensures ret.val() == absi(sval(a))", ("tail", "mag", "proof { sval_facts(a, r); }")),
    sig("from_mag", "    requires m.val() == (absi(sval(a)) * absi(sval(b))) % m256() ensures ret.val() == (a.val() * b.val()) % m256()",
        ("tail", "from_mag", """proof {
            let (x, y) = (absi(sval(a)), absi(sval(b)));
            signs(a); signs(b); mag_product(a, b, x, y); m_pos();
            neg_mod(x * y, m256());
        }""")),
    sig("to_mag", "    requires lo.val() == (a.val() * b.val()) % m256() ensures ret.val() == (absi(sval(a)) * absi(sval(b))) % m256()",
        ("tail", "to_mag", """proof {
            let (x, y) = (absi(sval(a)), absi(sval(b)));
            signs(a); signs(b); mag_product(a, b, x, y); m_pos();
            neg_mod(-(x * y), m256());
            neg_mod(a.val() * b.val(), m256());
        }""")),
    sig("lo_facts", "    requires " + MUL + " ensures ret",
        ("start", "lo_facts", """proof {
            u_bound(a); u_bound(b); m_pos(); parity_product(a, b, lo);
            if 2 * a.val() == m256() { times_top(a, b, lo); }
            if 2 * b.val() == m256() { swap_mul(a.val(), b.val()); times_top(b, a, lo); }
            unit_products(a.val(), b.val(), m256());
        }""")),
    sig("ovf_facts", "    requires ovf == (a.val() * b.val() >= m256()) ensures ret",
        ("start", "ovf_facts", "proof { u_bound(a); u_bound(b); m_pos(); ovf_cases(a, b); }")),
    sig("div_facts", "    requires d.val() != 0, q.val() == n.val() / d.val(), r.val() == n.val() % d.val() ensures ret",
        ("after", r"\blet half\b", 0, "proof { halves(n, half); u_bound(n); u_bound(d); div_cases(n.val(), d.val(), q.val(), r.val()); }")),
    sig("link_facts", "    requires " + MUL + """, ovf == (a.val() * b.val() >= m256()), d.val() != 0, q.val() == n.val() / d.val()
    ensures ret""",
        ("start", "link_facts", """proof {
            u_bound(a); u_bound(b); u_bound(n); u_bound(lo); u_bound(d); m_pos();
            mul_nonneg(a.val(), b.val());
            if !ovf { lemma_small_mod((a.val() * b.val()) as nat, m256() as nat); }
            link_lemma(a.val(), d.val(), n.val(), q.val());
            link_lemma(b.val(), d.val(), n.val(), q.val());
            swap_mul(a.val(), b.val());
        }""")),
]
TASKS = {
    "facts": {"lemmas": ["prelude.rs", "facts.rs"], "functions": FACT_FNS},
    "div": {
        "lemmas": ["prelude.rs", "div_lemmas.rs"],
        "functions": [(DIVMOD, "udiv256_by_128_to_128", UDIV), (DIVMOD, "div_mod_knuth", KNUTH),
                      (DIVMOD, "udivmod4", UDIVMOD)],
        "rules": ["R9"],
    },
    "const": {
        "lemmas": ["prelude.rs", "parse_const.rs"],
        "functions": [(PARSE, "const_from_str_prefixed", CONST, {"mod": "parse"}),
                      ("src/uint/parse.rs", "const_from_str_prefixed", U_CONST, {"mod": "uint_parse"}),
                      ("src/int/parse.rs", "const_from_str_prefixed", I_CONST, {"mod": "int_parse"}),
                      ("src/int/api.rs", "signum128", SIGNUM, {"impl": "I256"})],
        "rules": ["R11", "R12"],
    },
    "run": {
        "lemmas": ["prelude.rs", "parse_run.rs"],
        "functions": run_fns(),
        "rules": ["R11", "R12", "R13"],
    },
    "pow_u": {"lemmas": ["prelude.rs", "pow.rs"], "functions": pow_fns(False), "impl": "U256", "rules": ["R10"]},
    "pow_i": {"lemmas": ["prelude.rs", "pow.rs"], "functions": pow_fns(True), "impl": "I256", "rules": ["R10"]},
}
