// Lemmas for the extracted division (Knuth, TAOCP 2, 4.3.1, algorithm D).
verus! {

#[verifier::opaque]
pub open spec fn qt(B: int, un: int, u: int, v: int) -> int { (un * B + u) / v }

pub proof fn digit_bounds(q: int, vn0: int, rhat: int, u: int)
    requires 0 <= vn0 < b64(), 0 <= u < b64()
    ensures
        0 <= q < b64() ==> 0 <= q * vn0 <= u128::MAX,
        0 <= rhat < b64() ==> 0 <= b64() * rhat + u <= u128::MAX,
{
    if 0 <= q < b64() {
        assert(0 <= q * vn0 <= (b64() - 1) * (b64() - 1)) by(nonlinear_arith)
            requires 0 <= q <= b64() - 1, 0 <= vn0 <= b64() - 1;
    }
}
pub proof fn digit_entry(B: int, un: int, u: int, v: int, vn1: int, vn0: int, q: int, rhat: int)
    requires
        v == vn1 * B + vn0, B >= 2, B <= 2 * vn1, 0 < vn1 < B, 0 <= vn0 < B,
        0 <= un < v, 0 <= u < B, q == un / vn1, rhat == un - q * vn1,
    ensures
        q * vn1 + rhat == un, 0 <= rhat < vn1, 0 <= q <= B + 1,
        qt(B, un, u, v) <= q, 0 <= qt(B, un, u, v) < B,
{
    reveal(qt);
    lemma_fundamental_div_mod(un, vn1);
    lemma_mod_bound(un, vn1);
    assert(vn1 * q == q * vn1) by(nonlinear_arith);
    assert(0 <= rhat < vn1);
    assert(q >= 0) by(nonlinear_arith) requires q * vn1 + rhat == un, 0 <= rhat < vn1, un >= 0, vn1 > 0;
    // q <= B + 1
    if q >= B + 2 {
        assert(q * vn1 >= (B + 2) * vn1) by(nonlinear_arith) requires q >= B + 2, vn1 >= 0;
        assert((B + 2) * vn1 == vn1 * B + 2 * vn1) by(nonlinear_arith);
        assert(false);
    }
    let t = qt(B, un, u, v);
    let n = un * B + u;
    lemma_fundamental_div_mod(n, v);
    lemma_mod_bound(n, v);
    assert(n >= 0) by(nonlinear_arith) requires n == un * B + u, un >= 0, u >= 0, B >= 0;
    assert(t >= 0) by(nonlinear_arith) requires v * t + n % v == n, 0 <= n % v < v, n >= 0, v > 0;
    assert(t < B) by(nonlinear_arith)
        requires v * t <= n, n == un * B + u, un <= v - 1, u < B, v > 0, B > 0, t >= 0;
    // t * vn1 <= un
    assert(v * t == (t * vn1) * B + t * vn0) by(nonlinear_arith) requires v == vn1 * B + vn0;
    assert(t * vn0 >= 0) by(nonlinear_arith) requires t >= 0, vn0 >= 0;
    assert((t * vn1) * B <= un * B + u);
    assert(t * vn1 <= un) by(nonlinear_arith) requires (t * vn1) * B <= un * B + u, u < B, B > 0;
    assert(t <= q) by(nonlinear_arith)
        requires t * vn1 <= un, un == q * vn1 + rhat, rhat < vn1, vn1 > 0;
}
pub proof fn digit_step(B: int, un: int, u: int, v: int, vn1: int, vn0: int, q: int, rhat: int)
    requires
        v == vn1 * B + vn0, B >= 2, B <= 2 * vn1, 0 < vn1 < B, 0 <= vn0 < B,
        0 <= un < v, 0 <= u < B, q * vn1 + rhat == un, 0 <= rhat < B, 0 <= q <= B + 1,
        0 <= qt(B, un, u, v) <= q, qt(B, un, u, v) < B,
        q >= B || q * vn0 > B * rhat + u,
    ensures
        q >= 1, qt(B, un, u, v) <= q - 1, (q - 1) * vn1 + (rhat + vn1) == un,
        rhat + vn1 >= B ==> q - 1 < B && (q - 1) * vn0 <= B * (rhat + vn1) + u,
{
    reveal(qt);
    let t = qt(B, un, u, v);
    let n = un * B + u;
    lemma_fundamental_div_mod(n, v);
    lemma_mod_bound(n, v);
    assert((q - 1) * vn1 + (rhat + vn1) == q * vn1 + rhat) by(nonlinear_arith);
    if q < B {
        if t == q {
            assert(v * q == (q * vn1) * B + q * vn0) by(nonlinear_arith) requires v == vn1 * B + vn0;
            assert((q * vn1) * B == (un - rhat) * B);
            assert((un - rhat) * B == un * B - rhat * B) by(nonlinear_arith);
            assert(rhat * B == B * rhat) by(nonlinear_arith);
            assert(false);
        }
    }
    if rhat + vn1 >= B {
        if q - 1 >= B {
            assert(q == B + 1);
            assert((B + 1) * vn1 == vn1 * B + vn1) by(nonlinear_arith);
            assert(rhat < vn0 - vn1);
            assert(false);
        }
        assert((q - 1) * vn0 <= B * B) by(nonlinear_arith) requires q - 1 < B, 0 <= vn0 < B, q >= 1;
        assert(B * B <= B * (rhat + vn1)) by(nonlinear_arith) requires rhat + vn1 >= B, B > 0;
    }
}
pub proof fn digit_exit(B: int, un: int, u: int, v: int, vn1: int, vn0: int, q: int, rhat: int)
    requires
        v == vn1 * B + vn0, B >= 2, 0 < vn1 < B, 0 <= vn0 < B,
        0 <= un < v, 0 <= u < B, q * vn1 + rhat == un, 0 <= rhat, 0 <= q < B,
        qt(B, un, u, v) <= q,
        q * vn0 <= B * rhat + u,
    ensures
        q == qt(B, un, u, v), 0 <= un * B + u - q * v < v,
        un * B + u - q * v == (un * B + u) % v,
{
    reveal(qt);
    let n = un * B + u;
    let t = qt(B, un, u, v);
    lemma_fundamental_div_mod(n, v);
    lemma_mod_bound(n, v);
    assert(v * q == (q * vn1) * B + q * vn0) by(nonlinear_arith) requires v == vn1 * B + vn0;
    assert((q * vn1) * B == (un - rhat) * B);
    assert((un - rhat) * B == un * B - B * rhat) by(nonlinear_arith);
    assert(v * q <= n);
    assert(q <= t) by(nonlinear_arith) requires v * q <= n, v * t + n % v == n, n % v < v, v > 0;
    assert(v * q == q * v) by(nonlinear_arith);
}
// un * B + u - q * v computed with wrapping words.
pub proof fn wrap_digit(un: int, u: int, v: int, q: int, x: int, y: int, z: int, w: int)
    requires
        0 <= un * b64() + u - q * v < b128(),
        x == (un * b64()) % b128(), y == (x + u) % b128(), z == (q * v) % b128(), w == (y - z) % b128(),
    ensures w == un * b64() + u - q * v
{
    let m = b128();
    let (a, b) = (un * b64(), q * v);
    lemma_add_mod_noop(a, u, m);
    lemma_mod_twice(a, m);
    lemma_add_mod_noop(x, u, m);
    assert(y == (a + u) % m);
    lemma_sub_mod_noop(a + u, b, m);
    assert(w == (a + u - b) % m);
    lemma_small_mod((a + u - b) as nat, m as nat);
}
// Normalisation by s bits.
pub proof fn shifted_words(u1: u128, u0: u128, s: u32, hi: u128, lo: u128)
    requires
        0 < s < 128, u1 * p2(s as nat) < b128(),
        hi == (u1 << s) | (u0 >> ((128 - s) as u32)), lo == u0 << s,
    ensures hi * b128() + lo == (u1 * b128() + u0) * p2(s as nat)
{
    let t = (128 - s) as u32;
    let (a, b) = (u1 << s, u0 >> t);
    lemma_shl(u1, s);
    lemma_shr(u0, t);
    assert(((u1 << s) | (u0 >> t)) == add(u1 << s, u0 >> t)) by(bit_vector) requires 0 < s < 128, t == sub(128, s);
    let (ps, pt) = (p2(s as nat), p2(t as nat));
    p2_add(s as nat, t as nat);
    p2_64();
    p2_pos(s as nat);
    p2_pos(t as nat);
    assert(ps * pt == b128());
    assert(0 <= b < ps) by(nonlinear_arith) requires b * pt <= u0, u0 < b128(), ps * pt == b128(), pt > 0, b >= 0;
    // a + b does not overflow: a is a multiple of ps below b128 = ps * pt
    assert(u1 < pt) by(nonlinear_arith) requires u1 * ps < ps * pt, ps > 0;
    assert(u1 * ps <= (pt - 1) * ps) by(nonlinear_arith) requires u1 <= pt - 1, ps > 0;
    assert((pt - 1) * ps == ps * pt - ps) by(nonlinear_arith);
    assert(a + b < b128());
    assert(hi == a + b);
    // lo = u0 * ps mod b128, b = u0 / pt
    let r = (u0 - b * pt) as u128;
    lemma_shl_low(u0, s, t, b, r, lo);
    assert((u1 * b128() + u0) * ps == (u1 * ps) * b128() + u0 * ps) by(nonlinear_arith);
    assert(u0 * ps == b * b128() + r * ps) by(nonlinear_arith) requires u0 == b * pt + r, ps * pt == b128();
    assert((a + b) * b128() == a * b128() + b * b128()) by(nonlinear_arith);
}
// The low word of a left shift.
pub proof fn lemma_shl_low(x: u128, s: u32, t: u32, b: u128, r: u128, lo: u128)
    requires 0 < s < 128, t == 128 - s, b == x >> t, x == b * p2(t as nat) + r, r < p2(t as nat), lo == x << s
    ensures lo == r * p2(s as nat)
{
    p2_add(s as nat, t as nat);
    p2_64();
    p2_pos(s as nat);
    p2_pos(t as nat);
    let (ps, pt) = (p2(s as nat), p2(t as nat));
    assert(0 <= r * ps < b128()) by(nonlinear_arith) requires 0 <= r <= pt - 1, ps * pt == b128(), ps >= 1;
    lemma_shl_mod(x, s);
    assert(x * ps == b128() * b + r * ps) by(nonlinear_arith) requires x == b * pt + r, ps * pt == b128();
    lemma_mod_multiples_vanish(b as int, r * ps, b128());
    lemma_small_mod((r * ps) as nat, b128() as nat);
}

} // verus!
verus! {
pub proof fn digit_quotient(un: int, vn1: int, q: int)
    requires vn1 > 0, un >= 0, q == un / vn1
    ensures 0 <= q * vn1 <= un
{
    lemma_fundamental_div_mod(un, vn1);
    lemma_mod_bound(un, vn1);
    assert(vn1 * q == q * vn1) by(nonlinear_arith);
    lemma_div_pos_is_pos(un, vn1);
    assert(q * vn1 >= 0) by(nonlinear_arith) requires q >= 0, vn1 > 0;
}
pub proof fn norm_bound(u1: int, u0: int, v: int, ps: int, m: int)
    requires 0 <= u1 < v, 1 <= ps, v * ps < m
    ensures u1 * ps < m
{
    assert(u1 * ps <= v * ps) by(nonlinear_arith) requires u1 <= v, ps >= 1;
}
// The normalised dividend's top word is below the normalised divisor.
pub proof fn norm_top(u1: int, u0: int, v: int, ps: int, hi: int, lo: int)
    requires 0 <= u1 < v, 0 <= u0 < b128(), ps >= 1, hi * b128() + lo == (u1 * b128() + u0) * ps, 0 <= lo
    ensures hi < v * ps
{
    assert(u1 * b128() + u0 <= v * b128() - 1) by(nonlinear_arith) requires u1 <= v - 1, u0 <= b128() - 1;
    assert((u1 * b128() + u0) * ps <= (v * b128() - 1) * ps) by(nonlinear_arith)
        requires ps >= 1, u1 * b128() + u0 <= v * b128() - 1;
    assert((v * b128() - 1) * ps == (v * ps) * b128() - ps) by(nonlinear_arith);
    assert(hi < v * ps) by(nonlinear_arith) requires hi * b128() < (v * ps) * b128();
}
pub proof fn lemma_top_digit(v: u128)
    requires v as int >= b128() / 2
    ensures (v >> 64u32) as int >= b64() / 2, (v >> 64u32) != 0
{
    assert((v >> 64u32) >= 0x8000_0000_0000_0000) by(bit_vector) requires v >= 0x8000_0000_0000_0000_0000_0000_0000_0000;
}
pub proof fn wrap_words(un: u128, u: u128, v: u128, q: u128, bb: u128)
    requires 0 <= un * b64() + u - q * v < b128(), u < b64(), q < b64(), bb == b64(),
    ensures s_wsub(s_wadd(s_wmul(un, bb), u), s_wmul(q, v)) as int == un * b64() + u - q * v,
{
    reveal(s_wadd); reveal(s_wsub); reveal(s_wmul);
    let x = (un * b64()) % b128();
    let y = (x + u) % b128();
    let z = (q * v) % b128();
    lemma_mod_bound(un * b64(), b128());
    lemma_mod_bound(x + u, b128());
    lemma_mod_bound(q * v, b128());
    lemma_mod_bound(y - z, b128());
    wrap_digit(un as int, u as int, v as int, q as int, x, y, z, (y - z) % b128());
}
pub proof fn two_digits(un: int, u1: int, u0: int, v: int, q1: int, q0: int, mid: int, r: int)
    requires
        v > 0, mid == un * b64() + u1 - q1 * v, r == mid * b64() + u0 - q0 * v, 0 <= r < v,
    ensures
        (un * b128() + (u1 * b64() + u0)) == (q1 * b64() + q0) * v + r,
{
    let B = b64();
    assert(mid * B == (un * B) * B + u1 * B - (q1 * v) * B) by(nonlinear_arith) requires mid == un * B + u1 - q1 * v;
    assert((un * B) * B == un * (B * B)) by(nonlinear_arith);
    assert((q1 * B + q0) * v == (q1 * v) * B + q0 * v) by(nonlinear_arith);
}
// n*ps == q*(v*ps) + rr  ==>  n == q*v + rr/ps
pub proof fn unnormalise(n: int, v: int, ps: int, q: int, rr: int, r: int)
    requires v > 0, ps >= 1, n * ps == q * (v * ps) + rr, 0 <= rr < v * ps, r * ps <= rr < r * ps + ps
    ensures q == n / v, r == n % v
{
    assert(q * (v * ps) == (q * v) * ps) by(nonlinear_arith);
    assert((n - q * v) * ps == rr) by(nonlinear_arith) requires n * ps == (q * v) * ps + rr;
    let d = n - q * v;
    assert(d == r) by(nonlinear_arith) requires d * ps == rr, r * ps <= rr < r * ps + ps, ps >= 1;
    assert(0 <= r < v) by(nonlinear_arith) requires 0 <= rr < v * ps, r * ps == rr, ps >= 1;
    div_unique(n, v, q, r);
}
} // verus!
verus! {
pub proof fn times_one(x: int) ensures x * p2(0) == x { assert(p2(0) == 1); assert(x * p2(0) == x) by(nonlinear_arith) requires p2(0) == 1; }
} // verus!
verus! {
// ---- two-word divisors
pub open spec fn uval(u: Seq<u128>) -> int { (u[2] * b128() + u[1]) * b128() + u[0] }

pub proof fn val_bound(a: U256) ensures 0 <= a.val() <= b128() * b128() - 1 {
    assert(0 <= a.0[1] * b128() <= (b128() - 1) * b128()) by(nonlinear_arith) requires 0 <= a.0[1] <= b128() - 1;
    assert((b128() - 1) * b128() == b128() * b128() - b128()) by(nonlinear_arith);
}
// a << shift in three words, as full_shl computes them.
pub proof fn full_shl_words(a: U256, s: u32, lo: u128, hi: U256)
    requires s < 128, lo == (a.0[0] << s), hi.val() * p2((128 - s) as nat) <= a.val() < hi.val() * p2((128 - s) as nat) + p2((128 - s) as nat)
    ensures hi.val() * b128() + lo == a.val() * p2(s as nat), hi.0[1] < p2(s as nat),
        (hi.0[1] * b128() + hi.0[0]) * b128() == hi.val() * b128(),
{

    let (ps, pt) = (p2(s as nat), p2((128 - s) as nat));
    p2_add(s as nat, (128 - s) as nat);
    p2_64();
    p2_pos(s as nat);
    p2_pos((128 - s) as nat);
    let (h, r) = (hi.val(), a.val() - hi.val() * pt);
    assert(0 <= r * ps < b128()) by(nonlinear_arith) requires 0 <= r <= pt - 1, ps * pt == b128(), ps >= 1;
    assert(a.val() * ps == b128() * h + r * ps) by(nonlinear_arith) requires a.val() == h * pt + r, ps * pt == b128();
    lemma_mod_multiples_vanish(h, r * ps, b128());
    lemma_small_mod((r * ps) as nat, b128() as nat);
    lemma_shl_mod(a.0[0], s);
    assert(a.val() * ps == b128() * (a.0[1] * ps) + a.0[0] * ps) by(nonlinear_arith) requires a.val() == a.0[1] * b128() + a.0[0];
    lemma_mod_multiples_vanish(a.0[1] * ps, a.0[0] * ps, b128());
    val_bound(a);
    assert(h * pt < (ps * b128()) * pt) by(nonlinear_arith) requires h * pt < b128() * b128(), ps * pt == b128();
    assert(h < ps * b128()) by(nonlinear_arith) requires h * pt < (ps * b128()) * pt, pt >= 1;
    assert(hi.0[1] < ps) by(nonlinear_arith) requires hi.0[1] * b128() < ps * b128();
}
pub proof fn full_shr_words(u0: u128, u1: u128, u2: u128, s: u32, r: U256)
    requires s < 128, u2 < p2(s as nat),
        r.0[0] == (if s > 0 { (u0 >> s) | (u1 << ((128 - s) as u32)) } else { u0 >> s }),
        r.0[1] == (if s > 0 { (u1 >> s) | (u2 << ((128 - s) as u32)) } else { u1 >> s }),
    ensures r.val() * p2(s as nat) <= (u2 * b128() + u1) * b128() + u0 < r.val() * p2(s as nat) + p2(s as nat)
{
    lemma_shr(u0, s);
    lemma_shr(u1, s);
    lemma_shr(u2, s);
    let ps = p2(s as nat);
    if s == 0 {
        assert(ps == 1);
        times_one((u0 >> s) as int); times_one((u1 >> s) as int); times_one(r.val());
    } else {
        let t = (128 - s) as u32;
        let pt = p2(t as nat);
        p2_add(s as nat, t as nat);
        p2_64();
        p2_pos(s as nat);
        p2_pos(t as nat);
        assert((u0 >> s) | (u1 << t) == add(u0 >> s, u1 << t) && (u0 >> s) <= sub(u128::MAX, u1 << t)) by(bit_vector) requires 0 < s < 128, t == sub(128, s);
        assert((u1 >> s) | (u2 << t) == add(u1 >> s, u2 << t) && (u1 >> s) <= sub(u128::MAX, u2 << t)) by(bit_vector) requires 0 < s < 128, t == sub(128, s);
        let m0 = u0 - (u0 >> s) * ps;
        let m1 = u1 - (u1 >> s) * ps;
        let m2 = u2 - (u2 >> s) * ps;
        assert((u2 >> s) == 0) by(nonlinear_arith) requires (u2 >> s) * ps <= u2, u2 < ps, (u2 >> s) >= 0, ps >= 1;
        assert((u2 >> s) * ps == 0) by(nonlinear_arith) requires (u2 >> s) == 0;
        assert(m1 <= u1 && m2 <= u2) by(nonlinear_arith) requires m1 == u1 - (u1 >> s) * ps, m2 == u2 - (u2 >> s) * ps, (u1 >> s) >= 0, (u2 >> s) >= 0, ps >= 1;
        lemma_shl_low(u1, t, s, (u1 >> s), m1 as u128, u1 << t);
        lemma_shl_low(u2, t, s, (u2 >> s), m2 as u128, u2 << t);
        let (x0, x1) = ((u0 >> s) as int, (u1 >> s) as int);
        let (y1, y2) = (m1 * pt, u2 * pt);
        assert(r.0[0] == x0 + y1 && r.0[1] == x1 + y2);
        assert(r.val() * ps == (x1 * ps) * b128() + (y2 * ps) * b128() + x0 * ps + y1 * ps) by(nonlinear_arith)
            requires r.val() == (x1 + y2) * b128() + (x0 + y1);
        assert(y1 * ps == m1 * b128()) by(nonlinear_arith) requires y1 == m1 * pt, ps * pt == b128();
        assert(y2 * ps == u2 * b128()) by(nonlinear_arith) requires y2 == u2 * pt, ps * pt == b128();
        assert(u2 * b128() * b128() == u2 * (b128() * b128())) by(nonlinear_arith);
    }
}
// The dividend and divisor normalised by the divisor's leading zeros.
pub proof fn norm_two(u: U256, v: U256, s: u32, w: U256, x2: u128, x1: u128, x0: u128)
    requires
        s < 128, v.0[1] * p2(s as nat) >= b128() / 2, w.val() == v.val() * p2(s as nat), v.0[1] != 0,
        (x2 * b128() + x1) * b128() + x0 == u.val() * p2(s as nat), x2 < p2(s as nat),
    ensures
        b128() / 2 <= w.0[1], x2 * b128() + x1 < w.val(), x2 < w.0[1],
{
    let ps = p2(s as nat);
    p2_pos(s as nat);
    val_bound(u);
    assert((v.0[1] * ps) * b128() <= w.val()) by(nonlinear_arith) requires w.val() == (v.0[1] * b128() + v.0[0]) * ps, v.0[0] >= 0, ps >= 1;
    assert(u.val() * ps <= (b128() * b128() - 1) * ps) by(nonlinear_arith) requires u.val() <= b128() * b128() - 1, ps >= 1;
    assert(w.val() >= b128() * ps) by(nonlinear_arith) requires w.val() == v.val() * ps, v.val() >= b128(), ps >= 1;
    assert((b128() * b128() - 1) * ps == (b128() * ps) * b128() - ps) by(nonlinear_arith);
    let t = x2 * b128() + x1;
    assert(t < b128() * ps) by(nonlinear_arith) requires t * b128() < (b128() * ps) * b128();
    assert(x2 * b128() < b128() * ps);
    assert(x2 < ps) by(nonlinear_arith) requires x2 * b128() < b128() * ps;
    p2_half(s as nat);
}
pub proof fn p2_half(n: nat) requires n < 128 ensures p2(n) <= b128() / 2 {
    p2_add(n, (127 - n) as nat);
    p2_64();
    p2_pos(n);
    p2_pos((127 - n) as nat);
    assert(p2(128) == 2 * p2(127));
    assert(p2(n) <= p2(n) * p2((127 - n) as nat)) by(nonlinear_arith) requires p2(n) >= 1, p2((127 - n) as nat) >= 1;
}
// v << s fits when s is at most the number of leading zeros.
pub proof fn norm_fits(v: U256, s: u32)
    requires s < 128, v.0[1] * p2(s as nat) < b128()
    ensures v.val() * p2(s as nat) < b128() * b128()
{
    let (ps, pt) = (p2(s as nat), p2((128 - s) as nat));
    p2_add(s as nat, (128 - s) as nat);
    p2_64();
    p2_pos(s as nat);
    p2_pos((128 - s) as nat);
    assert(v.0[1] < pt) by(nonlinear_arith) requires v.0[1] * ps < ps * pt, ps >= 1;
    assert((v.0[1] + 1) * ps <= b128()) by(nonlinear_arith) requires v.0[1] + 1 <= pt, ps * pt == b128(), ps >= 1;
    assert((v.0[1] + 1) * b128() == v.0[1] * b128() + b128()) by(nonlinear_arith);
    assert(v.val() * ps <= ((v.0[1] + 1) * b128() - 1) * ps) by(nonlinear_arith) requires v.val() <= (v.0[1] + 1) * b128() - 1, ps >= 1;
    assert(((v.0[1] + 1) * b128() - 1) * ps == ((v.0[1] + 1) * ps) * b128() - ps) by(nonlinear_arith);
}
pub broadcast proof fn mul128_fits(a: u128, b: u128)
    requires a < b64(), b < b64()
    ensures 0 <= #[trigger] (a * b) <= (b64() - 1) * (b64() - 1)
{
    assert(0 <= a * b <= (b64() - 1) * (b64() - 1)) by(nonlinear_arith) requires 0 <= a <= b64() - 1, 0 <= b <= b64() - 1;
}
pub proof fn mul_digits(a0: int, a1: int, b0: int, b1: int, a: int, b: int)
    requires a == a1 * b64() + a0, b == b1 * b64() + b0
    ensures a * b == (a1 * b1) * b128() + (a1 * b0) * b64() + (a0 * b1) * b64() + a0 * b0
{
    let m = b64();
    let x = a1 * m;
    assert(a * b == x * b + a0 * b) by(nonlinear_arith) requires a == x + a0;
    assert(x * b == x * (b1 * m) + x * b0) by(nonlinear_arith) requires b == b1 * m + b0;
    assert(x * (b1 * m) == (a1 * b1) * (m * m)) by(nonlinear_arith) requires x == a1 * m;
    assert(x * b0 == (a1 * b0) * m) by(nonlinear_arith) requires x == a1 * m;
    assert(a0 * b == (a0 * b1) * m + a0 * b0) by(nonlinear_arith) requires b == b1 * m + b0;
}
pub proof fn top_word(a: int, b: int, hi: int, lo: int)
    requires 0 <= a <= b128() - 1, 0 <= b <= b128() - 1, hi * b128() + lo == a * b, lo >= 0
    ensures hi <= b128() - 2
{
    let m = b128();
    assert(a * b <= (m - 1) * (m - 1)) by(nonlinear_arith) requires 0 <= a <= m - 1, 0 <= b <= m - 1;
    assert((m - 1) * (m - 1) == (m - 2) * m + 1) by(nonlinear_arith);
    assert(hi <= m - 2) by(nonlinear_arith) requires hi * m + lo <= (m - 2) * m + 1, lo >= 0, m > 1;
}
pub proof fn shl64(t: u128)
    ensures (t << 64u32) as int == (t & 0xFFFFFFFFFFFFFFFF) * b64()
{
    assert((t << 64u32) == mul(t & 0xFFFFFFFFFFFFFFFFu128, 0x1_0000_0000_0000_0000u128)) by(bit_vector);
    let x = t & 0xFFFFFFFFFFFFFFFFu128;
    split64(t);
    assert(x * b64() <= u128::MAX);
}
pub proof fn or_zero(x: u128, y: u128) ensures (x | y) == 0 <==> x == 0 && y == 0
{ assert((x | y) == 0 <==> x == 0 && y == 0) by(bit_vector); }
// One step of long division in base 2^128.
pub proof fn long_div(hi: int, lo: int, d: int)
    requires d > 0, hi >= 0, 0 <= lo < b128()
    ensures 0 <= hi % d < d, 0 <= hi / d,
        (hi * b128() + lo) / d == (hi / d) * b128() + ((hi % d) * b128() + lo) / d,
        (hi * b128() + lo) % d == ((hi % d) * b128() + lo) % d,
{
    lemma_mod_bound(hi, d);
    lemma_fundamental_div_mod(hi, d);
    lemma_div_pos_is_pos(hi, d);
    let (q1, h) = (hi / d, hi % d);
    let m = h * b128() + lo;
    lemma_mod_bound(m, d);
    lemma_fundamental_div_mod(m, d);
    let (q0, r) = (m / d, m % d);
    assert((d * q1) * b128() == (q1 * b128()) * d) by(nonlinear_arith);
    assert(hi * b128() == (q1 * b128()) * d + h * b128());
    assert(d * q0 == q0 * d) by(nonlinear_arith);
    assert((q1 * b128() + q0) * d == (q1 * b128()) * d + q0 * d) by(nonlinear_arith);
    div_unique(hi * b128() + lo, d, q1 * b128() + q0, r);
}
pub proof fn small_div(a: int, b: int) requires 0 <= a < b ensures a / b == 0, a % b == a
{ div_unique(a, b, 0, a); }
pub proof fn mul_words(a: U256, b: u128)
    ensures a.val() * b == (a.0[1] * b) * b128() + a.0[0] * b, b == 0 ==> a.val() * b == 0,
{
    assert(a.val() * b == (a.0[1] * b) * b128() + a.0[0] * b) by(nonlinear_arith) requires a.val() == a.0[1] * b128() + a.0[0];
    assert(b == 0 ==> a.val() * b == 0) by(nonlinear_arith);
}
} // verus!
