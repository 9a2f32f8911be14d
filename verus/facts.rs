// Contracts and lemmas for harness/src/facts.rs: what the Kani proofs assume
// of products and quotients holds of the mathematical ones.
use vstd::arithmetic::mul::*;
verus! {

pub assume_specification [u128::overflowing_mul] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a * b > u128::MAX), r.0 as int == (a * b) % b128();

pub open spec fn m256() -> int { b128() * b128() }
pub open spec fn top128() -> int { 0x8000_0000_0000_0000_0000_0000_0000_0000int }
/// The two's complement reading.
pub open spec fn sval(a: U256) -> int { if a.0[1] >= top128() { a.val() - m256() } else { a.val() } }
pub open spec fn absi(x: int) -> int { if x < 0 { -x } else { x } }

pub proof fn u_bound(a: U256)
    ensures 0 <= a.val() < m256(), a.0[1] == a.val() / b128(), a.0[0] == a.val() % b128(),
        top128() * 2 == b128(), (a.0[1] >= top128()) == (2 * a.val() >= m256())
{
    let (h, l) = (a.0[1] as int, a.0[0] as int);
    assert(0 <= h * b128() <= (b128() - 1) * b128()) by(nonlinear_arith) requires 0 <= h <= b128() - 1;
    assert((b128() - 1) * b128() == m256() - b128()) by(nonlinear_arith) requires m256() == b128() * b128();
    div_unique(a.val(), b128(), h, l);
    if h >= top128() {
        assert(2 * (h * b128()) >= b128() * b128()) by(nonlinear_arith) requires 2 * h >= b128(), b128() > 0;
    } else {
        assert(2 * (h * b128()) <= (b128() - 2) * b128()) by(nonlinear_arith) requires 2 * h <= b128() - 2, b128() > 0;
        assert((b128() - 2) * b128() == m256() - 2 * b128()) by(nonlinear_arith) requires m256() == b128() * b128();
    }
}
/// Equal values, equal words.
pub proof fn u_inj(a: U256, b: U256)
    requires a.val() == b.val()
    ensures a.0[0] == b.0[0], a.0[1] == b.0[1]
{
    u_bound(a);
    u_bound(b);
}
/// Congruent numbers have the same remainder.
pub proof fn mod_eq(x: int, k: int, m: int)
    requires m > 0
    ensures (x + k * m) % m == x % m
{
    assert(x + k * m == m * k + x) by(nonlinear_arith);
    lemma_mod_multiples_vanish(k, x, m);
}
pub proof fn u128_prod(a: int, b: int)
    requires 0 <= a < b64(), 0 <= b < b64()
    ensures 0 <= a * b <= (b64() - 1) * (b64() - 1), (b64() - 1) * (b64() - 1) + 2 * b64() - 1 == b128()
{
    assert(0 <= a * b <= (b64() - 1) * (b64() - 1)) by(nonlinear_arith) requires 0 <= a <= b64() - 1, 0 <= b <= b64() - 1;
    assert((b64() - 1) * (b64() - 1) + 2 * b64() - 1 == b64() * b64()) by(nonlinear_arith);
}
pub proof fn pack(x: u128, m: u128)
    ensures
        ((x & 0xFFFF_FFFF_FFFF_FFFF) | (m << 64u32)) as int == x as int % b64() + (m as int % b64()) * b64(),
{
    let y = m & 0xFFFF_FFFF_FFFF_FFFF;
    split64(x);
    split64(m);
    assert(((x & 0xFFFF_FFFF_FFFF_FFFF) | (m << 64u32)) == add(x & 0xFFFF_FFFF_FFFF_FFFF, mul(m & 0xFFFF_FFFF_FFFF_FFFF, 0x1_0000_0000_0000_0000)))
        by(bit_vector);
    assert(0 <= y * b64() <= (b64() - 1) * b64()) by(nonlinear_arith) requires 0 <= y <= b64() - 1;
    assert((b64() - 1) * b64() == b128() - b64()) by(nonlinear_arith) requires b128() == b64() * b64();
}
pub proof fn foil(x: int, y: int, z: int, w: int)
    ensures (x + y) * (z + w) == x * z + x * w + y * z + y * w
{
    lemma_mul_is_distributive_add_other_way(z + w, x, y);
    lemma_mul_is_distributive_add(x, z, w);
    lemma_mul_is_distributive_add(y, z, w);
}
pub proof fn shuffle(a: int, b: int, c: int, d: int)
    ensures (a * b) * (c * d) == (a * c) * (b * d), (a * b) * c == (a * c) * b, a * (c * d) == (a * c) * d
{
    assert((a * b) * c == (a * c) * b) by(nonlinear_arith);
    assert(a * (c * d) == (a * c) * d) by(nonlinear_arith);
    let e = a * b;
    assert(e * (c * d) == (e * c) * d) by(nonlinear_arith);
    let f = a * c;
    assert((f * b) * d == f * (b * d)) by(nonlinear_arith);
}
/// (x1*B + x0) * (y1*B + y0)
pub proof fn expand(x1: int, x0: int, y1: int, y0: int, B: int)
    ensures (x1 * B + x0) * (y1 * B + y0) == (x1 * y1) * (B * B) + (x1 * y0) * B + (x0 * y1) * B + x0 * y0
{
    foil(x1 * B, x0, y1 * B, y0);
    shuffle(x1, B, y1, B);
    shuffle(x1, B, y0, B);
    shuffle(x0, 1, y1, B);
}
pub proof fn dist(a: int, b: int, c: int, d: int, m: int)
    ensures (a + b + c + d) * m == a * m + b * m + c * m + d * m
{
    assert((a + b + c + d) * m == a * m + b * m + c * m + d * m) by(nonlinear_arith);
}
pub proof fn dist_digit(p: int, h: int, l: int, B: int)
    requires p == h * B + l
    ensures p * B == h * (B * B) + l * B
{
    lemma_mul_is_distributive_add_other_way(B, h * B, l);
    shuffle(h, 1, B, B);
}
/// Schoolbook multiplication in base 2^64.
pub proof fn school(a1: int, a0: int, b1: int, b0: int, B: int, p00: int, p01: int, p10: int, p11: int,
    h00: int, l00: int, h01: int, l01: int, h10: int, l10: int, mid: int, hm: int, lm: int)
    requires
        p00 == a0 * b0, p01 == a0 * b1, p10 == a1 * b0, p11 == a1 * b1,
        p00 == h00 * B + l00, p01 == h01 * B + l01, p10 == h10 * B + l10, mid == h00 + l01 + l10, mid == hm * B + lm,
    ensures
        (a1 * B + a0) * (b1 * B + b0) == (p11 + h01 + h10 + hm) * (B * B) + (l00 + lm * B)
{
    expand(a1, a0, b1, b0, B);
    dist(p11, h01, h10, hm, B * B);
    dist_digit(p01, h01, l01, B);
    dist_digit(p10, h10, l10, B);
    dist_digit(mid, hm, lm, B);
    dist(h00, l01, l10, 0, B);
}
/// (a1*W + a0) * (b1*W + b0) modulo W*W and its overflow, by words.
pub proof fn words_product(a1: int, a0: int, b1: int, b0: int, W: int, ph: int, pl: int, h1: int, o1: bool, h2: int, o2: bool,
    s: int, o3: bool, h: int, o4: bool)
    requires
        W > 1, 0 <= a1 < W, 0 <= a0 < W, 0 <= b1 < W, 0 <= b0 < W, a0 * b0 == ph * W + pl, 0 <= ph < W, 0 <= pl < W,
        o1 == (a1 * b0 >= W), h1 == (a1 * b0) % W, o2 == (a0 * b1 >= W), h2 == (a0 * b1) % W,
        o3 == (h1 + h2 >= W), s == (if o3 { h1 + h2 - W } else { h1 + h2 }),
        o4 == (ph + s >= W), h == (if o4 { ph + s - W } else { ph + s }),
    ensures
        0 <= h * W + pl < W * W,
        h * W + pl == ((a1 * W + a0) * (b1 * W + b0)) % (W * W),
        ((a1 * W + a0) * (b1 * W + b0) >= W * W) == (o1 || o2 || o3 || o4 || (a1 != 0 && b1 != 0)),
{
    let (x, y) = (a1 * b0, a0 * b1);
    lemma_fundamental_div_mod(x, W);
    lemma_fundamental_div_mod(y, W);
    lemma_mod_bound(x, W);
    lemma_mod_bound(y, W);
    let (qx, qy) = (x / W, y / W);
    assert(x >= 0) by(nonlinear_arith) requires x == a1 * b0, a1 >= 0, b0 >= 0;
    assert(y >= 0) by(nonlinear_arith) requires y == a0 * b1, a0 >= 0, b1 >= 0;
    let e3 = if o3 { 1int } else { 0 };
    let e4 = if o4 { 1int } else { 0 };
    let n = (a1 * W + a0) * (b1 * W + b0);
    let k = a1 * b1 + qx + qy + e3 + e4;
    expand(a1, a0, b1, b0, W);
    swap_mul(W, qx);
    swap_mul(W, qy);
    dist_digit(x, qx, h1, W);
    dist_digit(y, qy, h2, W);
    assert(0 * W == 0 && 1 * W == W);
    assert(h1 + h2 == e3 * W + s);
    assert(ph + s == e4 * W + h);
    dist_digit(h1 + h2, e3, s, W);
    dist_digit(ph + s, e4, h, W);
    dist(h1, h2, 0, 0, W);
    dist(ph, s, 0, 0, W);
    dist(a1 * b1, qx, qy, e3 + e4, W * W);
    dist(e3, e4, 0, 0, W * W);
    assert(0 * (W * W) == 0);
    assert(n == k * (W * W) + (h * W + pl));
    assert(0 <= h * W <= (W - 1) * W) by(nonlinear_arith) requires 0 <= h <= W - 1, W > 1;
    assert((W - 1) * W == W * W - W) by(nonlinear_arith);
    assert(W * W > 0) by(nonlinear_arith) requires W > 1;
    div_unique(n, W * W, k, h * W + pl);
    let p = a1 * b1;
    assert(qx >= 0) by(nonlinear_arith) requires x == W * qx + h1, x >= 0, h1 < W, W > 1;
    assert(qy >= 0) by(nonlinear_arith) requires y == W * qy + h2, y >= 0, h2 < W, W > 1;
    assert(p >= 0) by(nonlinear_arith) requires p == a1 * b1, a1 >= 0, b1 >= 0;
    assert((p > 0) == (a1 != 0 && b1 != 0)) by(nonlinear_arith) requires p == a1 * b1, a1 >= 0, b1 >= 0;
    assert((qx > 0) == (x >= W)) by(nonlinear_arith) requires x == W * qx + h1, 0 <= h1 < W, W > 1;
    assert((qy > 0) == (y >= W)) by(nonlinear_arith) requires y == W * qy + h2, 0 <= h2 < W, W > 1;
    assert((k > 0) == (n >= W * W)) by(nonlinear_arith) requires n == k * (W * W) + (h * W + pl), 0 <= h * W + pl < W * W, W * W > 0;
}
pub proof fn wrap_words_add(x: u128, c: bool)
    ensures (!x) as int == b128() - 1 - x
{
    assert((!x) == sub(0xFFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFF_FFFFu128, x)) by(bit_vector);
}
/// x*y modulo m from numbers congruent (up to sign) to x and y.
pub proof fn signed_product(x: int, y: int, kx: int, ky: int, sx: int, sy: int, m: int)
    requires m > 0, sx == x - kx * m, sy == y - ky * m
    ensures (sx * sy) % m == (x * y) % m
{
    // sx*sy == x*y - kx*m*y - ky*m*x + kx*m*ky*m
    foil(x, -(kx * m), y, -(ky * m));
    let k = kx * (ky * m) - kx * y - ky * x;
    assert((-(kx * m)) * (-(ky * m)) == (kx * (ky * m)) * m) by {
        assert((-(kx * m)) * (-(ky * m)) == (kx * m) * (ky * m)) by(nonlinear_arith);
        shuffle(kx, m, ky * m, 1);
    }
    assert(x * (-(ky * m)) == -((ky * x) * m)) by {
        assert(x * (-(ky * m)) == -(x * (ky * m))) by(nonlinear_arith);
        shuffle(x, 1, ky, m);
        swap_mul(x, ky);
    }
    assert((-(kx * m)) * y == -((kx * y) * m)) by {
        assert((-(kx * m)) * y == -((kx * m) * y)) by(nonlinear_arith);
        shuffle(kx, m, y, 1);
    }
    assert((kx * (ky * m) - kx * y - ky * x) * m == (kx * (ky * m)) * m - (kx * y) * m - (ky * x) * m) by {
        let (p, q, r) = (kx * (ky * m), kx * y, ky * x);
        assert((p - q - r) * m == p * m - q * m - r * m) by(nonlinear_arith);
    }
    assert(sx * sy == x * y + k * m);
    mod_eq(x * y, k, m);
}
/// The two's complement of the remainder.
pub proof fn neg_mod(x: int, m: int)
    requires m > 0
    ensures (-(x % m)) % m == (-x) % m
{
    lemma_fundamental_div_mod(x, m);
    let k = x / m;
    assert(-(x % m) == -x + k * m) by(nonlinear_arith) requires x == m * k + x % m;
    mod_eq(-x, k, m);
}
pub proof fn sval_facts(a: U256, g: U256)
    requires g.val() == (if a.0[1] >= top128() { (-a.val()) % m256() } else { a.val() })
    ensures g.val() == absi(sval(a)), sval(a) == a.val() - (if a.0[1] >= top128() { 1int } else { 0int }) * m256(),
        (sval(a) < 0) == (a.0[1] >= top128()),
{
    u_bound(a);
    if a.0[1] >= top128() {
        mod_eq(-a.val(), 1, m256());
        lemma_small_mod((m256() - a.val()) as nat, m256() as nat);
    }
}
/// a*b modulo 2^256 is, up to sign, the product of the magnitudes.
pub proof fn mag_product(a: U256, b: U256, x: int, y: int)
    requires x == absi(sval(a)), y == absi(sval(b))
    ensures
        ((sval(a) < 0) == (sval(b) < 0)) ==> (a.val() * b.val()) % m256() == (x * y) % m256(),
        ((sval(a) < 0) != (sval(b) < 0)) ==> (a.val() * b.val()) % m256() == (-(x * y)) % m256(),
{
    u_bound(a);
    u_bound(b);
    let (ka, kb) = (if sval(a) < 0 { 1int } else { 0int }, if sval(b) < 0 { 1int } else { 0int });
    assert(m256() > 0);
    signed_product(a.val(), b.val(), ka, kb, sval(a), sval(b), m256());
    let (p, q) = (sval(a), sval(b));
    assert(x * y == p * q || x * y == -(p * q)) by(nonlinear_arith) requires x == p || x == -p, y == q || y == -q;
    if (p < 0) == (q < 0) {
        assert(x * y == p * q) by(nonlinear_arith) requires (x == p && y == q) || (x == -p && y == -q);
    } else {
        assert(x * y == -(p * q)) by(nonlinear_arith) requires (x == p && y == -q) || (x == -p && y == q);
    }
}
pub proof fn times_top(a: U256, b: U256, lo: U256)
    requires a.val() * 2 == m256(), lo.val() == (a.val() * b.val()) % m256()
    ensures lo.val() == (if b.0[0] as int % 2 == 1 { a.val() } else { 0 }), b.0[0] as int % 2 == b.val() % 2,
{
    u_bound(a);
    u_bound(b);
    let t = a.val();
    let v = b.val();
    parity(b);
    let (q, r) = (v / 2, v % 2);
    assert(t * v == r * t + q * m256()) by(nonlinear_arith) requires v == 2 * q + r, t * 2 == m256();
    mod_eq(r * t, q, m256());
    assert(m256() > 0);
    assert(a.val() * b.val() == t * v);
    assert(0 * t == 0 && 1 * t == t);
    if r == 1 { lemma_small_mod(t as nat, m256() as nat); } else { lemma_small_mod(0, m256() as nat); }
}
pub proof fn parity(a: U256)
    ensures a.0[0] as int % 2 == a.val() % 2
{
    let h = a.0[1] as int;
    let k = h * (b128() / 2);
    assert(h * b128() == k * 2) by(nonlinear_arith) requires k == h * (b128() / 2), b128() == 2 * (b128() / 2);
    assert(a.val() == a.0[0] + k * 2);
    mod_eq(a.0[0] as int, k, 2);
}
pub proof fn parity_product(a: U256, b: U256, lo: U256)
    requires lo.val() == (a.val() * b.val()) % m256()
    ensures (lo.0[0] as int % 2 == 1) == (a.0[0] as int % 2 == 1 && b.0[0] as int % 2 == 1)
{
    parity(a);
    parity(b);
    parity(lo);
    let (x, y) = (a.val(), b.val());
    let n = x * y;
    let m = m256();
    let k = n / m;
    assert(m > 0);
    lemma_fundamental_div_mod(n, m);
    let h = m / 2;
    assert(m == 2 * h);
    assert(n % m == n + (-(k * h)) * 2) by(nonlinear_arith) requires n == m * k + n % m, m == 2 * h;
    mod_eq(n, -(k * h), 2);
    // n % 2 == (x%2)*(y%2)
    let (x2, y2) = (x / 2, y / 2);
    let (rx, ry) = (x % 2, y % 2);
    assert(n == rx * ry + (2 * x2 * y2 + x2 * ry + y2 * rx) * 2) by(nonlinear_arith)
        requires n == x * y, x == 2 * x2 + rx, y == 2 * y2 + ry;
    mod_eq(rx * ry, 2 * x2 * y2 + x2 * ry + y2 * rx, 2);
    u_bound(a);
    u_bound(b);
    assert(rx * ry == 1 || rx * ry == 0) by(nonlinear_arith) requires 0 <= rx <= 1, 0 <= ry <= 1;
    assert((rx * ry == 1) == (rx == 1 && ry == 1)) by(nonlinear_arith) requires 0 <= rx <= 1, 0 <= ry <= 1;
}
/// a*b > n exactly when a > n/b.
pub proof fn link_lemma(a: int, b: int, n: int, q: int)
    requires b > 0, a >= 0, n >= 0, q == n / b
    ensures (a * b > n) == (a > q)
{
    lemma_fundamental_div_mod(n, b);
    lemma_mod_bound(n, b);
    let r = n % b;
    if a > q {
        assert(a * b >= (q + 1) * b) by(nonlinear_arith) requires a >= q + 1, b > 0;
        assert((q + 1) * b == b * q + b) by(nonlinear_arith);
    } else {
        assert(a * b <= q * b) by(nonlinear_arith) requires a <= q, b > 0;
        assert(q * b == b * q) by(nonlinear_arith);
    }
}
pub proof fn big_product(x: int, y: int, m: int)
    requires 2 * x >= m, y >= 2, m > 0
    ensures x * y >= m
{
    assert(x * y >= x * 2) by(nonlinear_arith) requires y >= 2, x >= 0;
}
pub proof fn halves(a: U256, h: U256)
    requires h.0[1] == a.0[1] / 2, h.0[0] == a.0[0] / 2 + (if a.0[1] as int % 2 == 1 { top128() } else { 0 })
    ensures h.val() == a.val() / 2
{
    let (x, y) = (a.0[1] as int, a.0[0] as int);
    let (qx, rx, qy, ry) = (x / 2, x % 2, y / 2, y % 2);
    assert(x * b128() == 2 * (qx * b128() + rx * top128())) by(nonlinear_arith) requires x == 2 * qx + rx, b128() == 2 * top128();
    assert(a.val() == 2 * h.val() + ry);
}

pub proof fn m_pos()
    ensures m256() > 0, m256() == b128() * b128(), m256() > 2 * b128()
{
    assert(m256() > 2 * b128()) by(nonlinear_arith) requires m256() == b128() * b128(), b128() > 2;
}
pub proof fn swap_mul(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn mul_nonneg(a: int, b: int)
    requires a >= 0, b >= 0
    ensures a * b >= 0
{
    assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0;
}
pub proof fn signs(a: U256) ensures (sval(a) < 0) == (a.0[1] >= top128()) { u_bound(a); }
pub proof fn u128_sum(p11: int, h01: int, h10: int, hm: int, a1: int, b1: int)
    requires p11 == a1 * b1, 0 <= a1 < b64(), 0 <= b1 < b64(), 0 <= h01 < b64(), 0 <= h10 < b64(), 0 <= hm < b64()
    ensures true
{}
pub proof fn ult_words(a: U256, b: U256)
    ensures (a.val() < b.val()) == (a.0[1] < b.0[1] || (a.0[1] == b.0[1] && a.0[0] < b.0[0]))
{
    let (x, y) = (a.0[1] as int, b.0[1] as int);
    if x < y { assert(y * b128() >= x * b128() + b128()) by(nonlinear_arith) requires y >= x + 1, b128() > 0; }
    if x > y { assert(x * b128() >= y * b128() + b128()) by(nonlinear_arith) requires x >= y + 1, b128() > 0; }
}
pub proof fn top_value(a: U256)
    ensures (2 * a.val() == m256()) == (a.0[1] == top128() && a.0[0] == 0)
{
    u_bound(a);
    let t = U256([0, 0x8000_0000_0000_0000_0000_0000_0000_0000]);
    u_bound(t);
    assert(2 * t.val() == m256()) by(nonlinear_arith) requires t.val() == top128() * b128(), m256() == b128() * b128(), b128() == 2 * top128();
    if 2 * a.val() == m256() { u_inj(a, t); }
    if a.0[1] == top128() && a.0[0] == 0 { assert(a.val() == t.val()); }
}
pub proof fn neg_words(a: U256)
    ensures ({
        let l = b128() - 1 - a.0[0] + 1;
        let c = if l >= b128() { 1int } else { 0 };
        let h = b128() - 1 - a.0[1] + c;
        (if h >= b128() { h - b128() } else { h }) * b128() + (if l >= b128() { l - b128() } else { l }) == (-a.val()) % m256()
    })
{
    u_bound(a);
    m_pos();
    let l = b128() - 1 - a.0[0] + 1;
    let c = if l >= b128() { 1int } else { 0 };
    let h = b128() - 1 - a.0[1] + c;
    let x = a.0[1] as int;
    if a.val() == 0 {
        u_inj(a, U256([0, 0]));
        lemma_small_mod(0, m256() as nat);
    } else {
        mod_eq(-a.val(), 1, m256());
        lemma_small_mod((m256() - a.val()) as nat, m256() as nat);
        assert((b128() - 1 - x) * b128() == m256() - b128() - x * b128()) by(nonlinear_arith) requires m256() == b128() * b128();
        assert((b128() - 1 - x + 1) * b128() == m256() - x * b128()) by(nonlinear_arith) requires m256() == b128() * b128();
        if h >= b128() { assert(x == 0 && c == 1 && a.0[0] == 0); }
    }
}
pub proof fn unit_products(a: int, b: int, m: int)
    requires 0 <= a < m, 0 <= b < m
    ensures
        a == 0 || b == 0 ==> (a * b) % m == 0,
        a == 1 ==> (a * b) % m == b, b == 1 ==> (a * b) % m == a,
{
    if a == 0 || b == 0 {
        assert(a * b == 0) by(nonlinear_arith) requires a == 0 || b == 0;
        lemma_small_mod(0, m as nat);
    }
    if a == 1 { assert(a * b == b) by(nonlinear_arith) requires a == 1; lemma_small_mod(b as nat, m as nat); }
    if b == 1 { assert(a * b == a) by(nonlinear_arith) requires b == 1; lemma_small_mod(a as nat, m as nat); }
}
pub proof fn ovf_cases(a: U256, b: U256)
    ensures
        a.val() <= 1 || b.val() <= 1 ==> a.val() * b.val() < m256(),
        a.0[1] != 0 && b.0[1] != 0 ==> a.val() * b.val() >= m256(),
        a.0[1] == 0 && b.0[1] == 0 ==> a.val() * b.val() < m256(),
        (a.0[1] >= top128() && b.val() >= 2) || (b.0[1] >= top128() && a.val() >= 2) ==> a.val() * b.val() >= m256(),
{
    u_bound(a);
    u_bound(b);
    m_pos();
    let (x, y) = (a.val(), b.val());
    if x <= 1 || y <= 1 {
        assert(x * y <= x || x * y <= y) by(nonlinear_arith) requires x >= 0, y >= 0, x <= 1 || y <= 1;
    }
    if a.0[1] != 0 && b.0[1] != 0 {
        let (h, k) = (a.0[1] as int, b.0[1] as int);
        assert(h * b128() >= b128()) by(nonlinear_arith) requires h >= 1, b128() > 0;
        assert(k * b128() >= b128()) by(nonlinear_arith) requires k >= 1, b128() > 0;
        assert(x * y >= b128() * b128()) by(nonlinear_arith) requires x >= b128(), y >= b128(), b128() > 0;
    }
    if a.0[1] == 0 && b.0[1] == 0 {
        assert(x * y <= (b128() - 1) * (b128() - 1)) by(nonlinear_arith) requires 0 <= x <= b128() - 1, 0 <= y <= b128() - 1;
        assert((b128() - 1) * (b128() - 1) < b128() * b128()) by(nonlinear_arith) requires b128() > 1;
    }
    if a.0[1] >= top128() && y >= 2 { big_product(x, y, m256()); }
    if b.0[1] >= top128() && x >= 2 { big_product(y, x, m256()); swap_mul(x, y); }
}
pub proof fn div_cases(n: int, d: int, q: int, r: int)
    requires n >= 0, d > 0, q == n / d, r == n % d
    ensures 0 <= r < d, 0 <= q <= n, r <= n, n < d ==> q == 0 && r == n, n >= d ==> q >= 1, d == 1 ==> q == n && r == 0,
        d >= 2 ==> q <= n / 2,
{
    lemma_fundamental_div_mod(n, d);
    lemma_mod_bound(n, d);
    assert(q >= 0) by(nonlinear_arith) requires d * q + r == n, r < d, n >= 0, d > 0;
    assert(d * q >= q) by(nonlinear_arith) requires d >= 1, q >= 0;
    if n < d {
        if q >= 1 { assert(d * q >= d) by(nonlinear_arith) requires q >= 1, d > 0; }
        assert(q == 0);
        assert(d * 0 == 0);
    } else {
        if q == 0 { assert(d * 0 == 0); }
    }
    if d == 1 { assert(d * q == q) by(nonlinear_arith) requires d == 1; }
    if d >= 2 { assert(d * q >= 2 * q) by(nonlinear_arith) requires d >= 2, q >= 0; }
}

} // verus!
