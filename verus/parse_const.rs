// Compile-time parsing: what a literal spells, and the lemmas of the proofs.
verus! {

pub open spec fn mod256() -> int { b128() * b128() }
pub open spec fn fu(x: int) -> bool { 0 <= x < mod256() }
pub open spec fn fi(x: int) -> bool { -mod256() / 2 <= x < mod256() / 2 }

/// Whether the text at hand may be refused.
pub uninterp spec fn rejectable() -> bool;
#[verifier::external_body]
pub const fn reject<T>() -> (r: T) requires rejectable() ensures false { panic!() }

pub open spec fn ws(c: u8) -> bool { c == 95 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32 }
pub open spec fn dig(c: u8, radix: int) -> int {
    let d = if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { 99 };
    if d < radix { d } else { -1 }
}
/// The value of the digits of b[s..i].
pub open spec fn upto(b: Seq<u8>, s: int, i: int, radix: int) -> int
    decreases i - s
{
    if i <= s { 0 } else if ws(b[i - 1]) { upto(b, s, i - 1, radix) } else { upto(b, s, i - 1, radix) * radix + dig(b[i - 1], radix) }
}
pub open spec fn digits_ok(b: Seq<u8>, s: int, n: int, radix: int) -> bool {
    forall|k: int| s <= k < n ==> ws(#[trigger] b[k]) || dig(b[k], radix) >= 0
}
pub open spec fn some_digit(b: Seq<u8>, s: int, n: int) -> bool {
    exists|k: int| s <= k < n && !ws(#[trigger] b[k])
}
pub open spec fn lit_prefix(b: Seq<u8>, s: int, c: int) -> bool { b.len() - s > 2 && b[s] == 48 && b[s + 1] == c }
pub open spec fn lit_radix(b: Seq<u8>, s: int) -> int {
    if lit_prefix(b, s, 98) { 2 } else if lit_prefix(b, s, 111) { 8 } else if lit_prefix(b, s, 120) { 16 } else { 10 }
}
pub open spec fn lit_at(b: Seq<u8>, s: int) -> int { if lit_radix(b, s) == 10 { s } else { s + 2 } }
pub open spec fn lit_any(b: Seq<u8>, s: int) -> bool { some_digit(b, lit_at(b, s), b.len() as int) }
pub open spec fn lit_ok(b: Seq<u8>, s: int) -> bool {
    b.len() > s && digits_ok(b, lit_at(b, s), b.len() as int, lit_radix(b, s))
}
pub open spec fn lit_val(b: Seq<u8>, s: int) -> int { upto(b, lit_at(b, s), b.len() as int, lit_radix(b, s)) }

pub open spec fn plus(b: Seq<u8>) -> int { if b[0] == 43 { 1 } else { 0 } }
pub open spec fn sign(b: Seq<u8>) -> int { if b[0] == 43 || b[0] == 45 { 1 } else { 0 } }
pub open spec fn lit_signed(b: Seq<u8>) -> int { if b[0] == 45 { -lit_val(b, 1) } else { lit_val(b, sign(b)) } }

pub proof fn upto_mono(b: Seq<u8>, s: int, i: int, n: int, radix: int)
    requires s <= i <= n, digits_ok(b, s, n, radix), radix >= 1
    ensures 0 <= upto(b, s, i, radix) <= upto(b, s, n, radix)
    decreases n - s
{
    if n > s {
        if i < n {
            upto_mono(b, s, i, n - 1, radix);
            let (x, y) = (upto(b, s, i, radix), upto(b, s, n - 1, radix));
            assert(y * radix >= y) by(nonlinear_arith) requires radix >= 1, y >= 0;
            assert(ws(b[n - 1]) || dig(b[n - 1], radix) >= 0);
        } else {
            upto_mono(b, s, n - 1, n - 1, radix);
            let y = upto(b, s, n - 1, radix);
            assert(y * radix >= 0) by(nonlinear_arith) requires radix >= 1, y >= 0;
            assert(ws(b[n - 1]) || dig(b[n - 1], radix) >= 0);
        }
    }
}
pub proof fn lit_nonneg(b: Seq<u8>, s: int) requires lit_ok(b, s) ensures lit_val(b, s) >= 0
{
    if lit_at(b, s) <= b.len() { upto_mono(b, lit_at(b, s), b.len() as int, b.len() as int, lit_radix(b, s)); }
}
pub proof fn split_mask(lo: u128)
    ensures (lo & (u64::MAX as u128)) < b64(), (lo >> 64u32) < b64(),
        lo == (lo >> 64u32) * b64() + (lo & (u64::MAX as u128)),
        (lo >> 64i32) == (lo >> 64u32),
{
    split64(lo);
    assert((lo & (u64::MAX as u128)) == (lo & 0xFFFF_FFFF_FFFF_FFFFu128)) by(bit_vector);
    assert((lo >> 64i32) == (lo >> 64u32)) by(bit_vector);
}
pub proof fn small_times(x: int, r: int) requires 0 <= x < b64(), 0 <= r <= 16 ensures 0 <= x * r <= 16 * (b64() - 1)
{
    assert(0 <= x * r <= (b64() - 1) * 16) by(nonlinear_arith) requires 0 <= x <= b64() - 1, 0 <= r <= 16;
}
pub proof fn word_product(a: U256, hi: int, lo: int, l1: int, l0: int, r: int)
    requires a.val() == hi * b128() + lo, lo == l1 * b64() + l0, r >= 0, lo >= 0, hi >= 0, l1 >= 0, l0 >= 0,
    ensures a.val() * r == (hi * r) * b128() + (l1 * r) * b64() + l0 * r, hi * r >= 0, l1 * r >= 0, l0 * r >= 0,
{
    assert(a.val() * r == (hi * r) * b128() + lo * r) by(nonlinear_arith) requires a.val() == hi * b128() + lo;
    assert(lo * r == (l1 * r) * b64() + l0 * r) by(nonlinear_arith) requires lo == l1 * b64() + l0;
    assert(hi * r >= 0 && l1 * r >= 0 && l0 * r >= 0) by(nonlinear_arith) requires hi >= 0, r >= 0, l1 >= 0, l0 >= 0;
}
pub proof fn shl64_split(t: u128)
    ensures (t << 64u32) + (t >> 64u32) * b128() == t * b64(), (t << 64i32) == (t << 64u32), (t >> 64i32) == (t >> 64u32),
{
    split64(t);
    assert((t << 64u32) == mul(t & 0xFFFFFFFFFFFFFFFFu128, 0x1_0000_0000_0000_0000u128)) by(bit_vector);
    let (h, l) = (t >> 64u32, t & 0xFFFFFFFFFFFFFFFFu128);
    assert(l * 0x1_0000_0000_0000_0000int <= u128::MAX);
    assert((t << 64u32) == l * b64());
    assert(t * b64() == l * b64() + h * b128()) by(nonlinear_arith) requires t == h * b64() + l;
    assert((t << 64i32) == (t << 64u32)) by(bit_vector);
    assert((t >> 64i32) == (t >> 64u32)) by(bit_vector);
}
pub proof fn val_lt(a: U256) ensures 0 <= a.val() < mod256() {
    assert(0 <= a.0[1] * b128() <= (b128() - 1) * b128()) by(nonlinear_arith) requires 0 <= a.0[1] <= b128() - 1;
    assert((b128() - 1) * b128() == b128() * b128() - b128()) by(nonlinear_arith);
}
pub proof fn over(hi: int, x: int) requires hi >= b128(), x >= hi * b128() ensures x >= mod256() {
    assert(hi * b128() >= b128() * b128()) by(nonlinear_arith) requires hi >= b128();
}

impl U256 {
    pub const fn into_words(self) -> (r: (u128, u128)) ensures r.0 == self.0[1], r.1 == self.0[0] { (self.0[1], self.0[0]) }
}

// The signed type.
pub struct I256(pub [i128; 2]);
impl Clone for I256 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for I256 {}
impl I256 {
    pub open spec fn val(self) -> int { self.0[1] * b128() + (self.0[0] as u128) }
    pub const fn from_words(hi: i128, lo: i128) -> (r: Self) ensures r.0[1] == hi, r.0[0] == lo { I256([lo, hi]) }
    pub const fn into_words(self) -> (r: (i128, i128)) ensures r.0 == self.0[1], r.1 == self.0[0] { (self.0[1], self.0[0]) }
}
pub proof fn as_signed(x: u128)
    ensures (x as i128) as int == (if x < b128() / 2 { x as int } else { x - b128() }), ((x as i128) as u128) == x
{
    assert(((x as i128) as u128) == x) by(bit_vector);
    let (y, w) = (x as i128, !x);
    assert(w == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 - x) by(bit_vector) requires w == !x;
    assert(x >= 0x8000_0000_0000_0000_0000_0000_0000_0000u128 ==> y == -1 - (w as i128)) by(bit_vector) requires w == !x, y == x as i128;
}
/// Two's complement negation, word by word.
pub proof fn negation(hi: u128, lo: u128)
    ensures (!lo) == b128() - 1 - lo, (!hi) == b128() - 1 - hi
{
    assert(!lo == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 - lo) by(bit_vector);
    assert(!hi == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 - hi) by(bit_vector);
}
pub proof fn sign_flag(s: i128, b: bool)
    requires -1 <= s <= 1
    ensures (s | 0i128) == s, (s | 1i128) == (if s < 0 { -1int } else { 1int })
{
    assert((s | 0i128) == s) by(bit_vector);
    assert(s == -1 ==> (s | 1i128) == -1) by(bit_vector);
    assert(s == 0 ==> (s | 1i128) == 1) by(bit_vector);
    assert(s == 1 ==> (s | 1i128) == 1) by(bit_vector);
}
pub proof fn halves() ensures mod256() == 2 * (mod256() / 2), -mod256() / 2 == -(mod256() / 2), mod256() / 2 == (b128() / 2) * b128()
{
    assert(b128() * b128() == 2 * ((b128() / 2) * b128())) by(nonlinear_arith) requires b128() == 2 * (b128() / 2);
}
pub proof fn signed_range(a: I256) ensures fi(a.val()), a.val() < 0 <==> a.0[1] < 0, a.val() == 0 <==> a.0[1] == 0 && a.0[0] == 0
{
    halves();
    let (h, l) = (a.0[1] as int, a.0[0] as u128);
    assert(l == 0 <==> a.0[0] == 0) by { let z = a.0[0]; assert((z as u128) == 0 <==> z == 0) by(bit_vector); }
    if h < 0 { assert(h * b128() <= -b128()) by(nonlinear_arith) requires h <= -1; }
    else if h > 0 { assert(h * b128() >= b128()) by(nonlinear_arith) requires h >= 1; }
    assert(-(b128() / 2) * b128() <= h * b128() <= (b128() / 2 - 1) * b128()) by(nonlinear_arith) requires -(b128() / 2) <= h <= b128() / 2 - 1;
    assert((b128() / 2 - 1) * b128() == (b128() / 2) * b128() - b128()) by(nonlinear_arith);
    assert(-(b128() / 2) * b128() == -((b128() / 2) * b128())) by(nonlinear_arith);
}

// ---- the standard library ------------------------------------------------- [trusted]
pub assume_specification [u8::is_ascii_whitespace] (a: &u8) -> (r: bool)
    ensures r == (*a == 9 || *a == 10 || *a == 12 || *a == 13 || *a == 32);
pub assume_specification [u128::overflowing_mul] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a * b > u128::MAX), !r.1 ==> r.0 == a * b;
pub assume_specification [i128::signum] (a: i128) -> (r: i128)
    ensures r == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
/// `str`: a sequence of bytes.
#[verifier::external_body]
pub struct Str { s: str }
impl Str {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub const fn is_empty(&self) -> (r: bool) ensures r == (self.bytes().len() == 0) { self.s.is_empty() }
    #[verifier::external_body]
    pub const fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { self.s.as_bytes() }
}

} // verus!
