// Contracts of what the extracted functions use, and the lemmas their proofs
// use.  Everything marked [trusted] is an assumed contract on something outside
// the extracted text; each is also checked by a Kani harness on the real item
// (harness/src/c03.rs `c03_env_*`, C05, C07, C09).
#![allow(unused)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;

verus! {

// ---- mathematics -------------------------------------------------------

pub open spec fn p2(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub open spec fn b64() -> int { 0x1_0000_0000_0000_0000int }
pub open spec fn b128() -> int { 0x1_0000_0000_0000_0000int * 0x1_0000_0000_0000_0000int }

pub proof fn p2_pos(n: nat) ensures p2(n) >= 1 decreases n { if n > 0 { p2_pos((n - 1) as nat); } }
pub proof fn p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases a {
    if a > 0 {
        p2_add((a - 1) as nat, b);
        let (x, y) = (p2((a - 1) as nat), p2(b));
        assert((2 * x) * y == 2 * (x * y)) by(nonlinear_arith);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
    }
}
pub proof fn p2_64() ensures p2(64) == b64(), p2(128) == b128() {
    assert(p2(64) == 0x1_0000_0000_0000_0000) by(compute);
    p2_add(64, 64);
}
pub proof fn lemma_shl(x: u128, s: u32)
    requires s < 128, x * p2(s as nat) <= u128::MAX
    ensures (x << s) == x * p2(s as nat)
    decreases s
{
    if s == 0 {
        assert(x << s == x) by(bit_vector) requires s == 0u32;
        assert(p2(0) == 1);
        assert(x * 1 == x);
    } else {
        let t = (s - 1) as u32;
        assert(p2(s as nat) == 2 * p2(t as nat));
        assert(x * p2(s as nat) == 2 * (x * p2(t as nat))) by(nonlinear_arith)
            requires p2(s as nat) == 2 * p2(t as nat);
        p2_pos(t as nat);
        assert(0 <= x * p2(t as nat)) by(nonlinear_arith) requires p2(t as nat) >= 1, x >= 0;
        lemma_shl(x, t);
        let y = x << t;
        assert(x << s == (x << t) << 1u32) by(bit_vector) requires t < 127, s == add(t, 1u32);
        assert((y << 1u32) == 2 * y) by(bit_vector) requires y <= 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128;
    }
}
pub proof fn lemma_shr(x: u128, s: u32)
    requires s < 128
    ensures (x >> s) * p2(s as nat) <= x < (x >> s) * p2(s as nat) + p2(s as nat)
    decreases s
{
    if s == 0 {
        assert(x >> s == x) by(bit_vector) requires s == 0u32;
        assert(p2(0) == 1);
        assert(x * 1 == x);
    } else {
        let t = (s - 1) as u32;
        lemma_shr(x, t);
        let y = x >> t;
        let z = x >> s;
        assert(x >> s == (x >> t) >> 1u32) by(bit_vector) requires t < 127, s == add(t, 1u32);
        assert((y >> 1u32) == y / 2) by(bit_vector);
        let p = p2(t as nat);
        assert(p2(s as nat) == 2 * p);
        assert(2 * z <= y <= 2 * z + 1);
        p2_pos(t as nat);
        assert(z * (2 * p) <= x < z * (2 * p) + 2 * p) by(nonlinear_arith)
            requires 2 * z <= y <= 2 * z + 1, y * p <= x < y * p + p, p >= 0;
    }
}
pub proof fn lemma_shl_mod(x: u128, s: u32)
    requires s < 128
    ensures (x << s) as int == (x * p2(s as nat)) % b128()
    decreases s
{
    let m = b128();
    if s == 0 {
        assert(x << s == x) by(bit_vector) requires s == 0u32;
        assert(p2(0) == 1);
        assert(x * 1 == x);
        lemma_small_mod(x as nat, m as nat);
    } else {
        let t = (s - 1) as u32;
        lemma_shl_mod(x, t);
        let y = x << t;
        assert(x << s == (x << t) << 1u32) by(bit_vector) requires t < 127, s == add(t, 1u32);
        assert((y << 1u32) == if y < 0x8000_0000_0000_0000_0000_0000_0000_0000u128 { add(y, y) } else {
            mul(2, sub(y, 0x8000_0000_0000_0000_0000_0000_0000_0000u128)) }) by(bit_vector);
        let z = y << 1u32;
        assert(z as int == 2 * y || z as int == 2 * y - m);
        if z as int == 2 * y {
            lemma_small_mod(z as nat, m as nat);
        } else {
            lemma_small_mod(z as nat, m as nat);
            lemma_mod_sub_multiples_vanish(2 * y as int, m);
        }
        let e = x * p2(t as nat);
        lemma_mul_mod_noop_right(2, e, m);
        assert(p2(s as nat) == 2 * p2(t as nat));
        assert(x * p2(s as nat) == 2 * e) by(nonlinear_arith) requires p2(s as nat) == 2 * p2(t as nat), e == x * p2(t as nat);
    }
}
// Divisor uniqueness.
pub proof fn div_unique(n: int, d: int, q: int, r: int)
    requires d > 0, 0 <= r < d, n == q * d + r
    ensures q == n / d, r == n % d
{
    assert(q * d == d * q) by(nonlinear_arith);
    lemma_fundamental_div_mod_converse(n, d, q, r);
}
pub proof fn split64(a: u128)
    ensures
        (a & 0xFFFFFFFFFFFFFFFF) as int == a as int % b64(),
        (a >> 64u32) as int == a as int / b64(),
        (a >> 64u32) <= 0xFFFFFFFFFFFFFFFF,
        (a & 0xFFFFFFFFFFFFFFFF) <= 0xFFFFFFFFFFFFFFFF,
        a as int == (a >> 64u32) * b64() + (a & 0xFFFFFFFFFFFFFFFF),
{
    assert(a & 0xFFFFFFFFFFFFFFFF == a % 0x1_0000_0000_0000_0000) by(bit_vector);
    assert(a >> 64u32 == a / 0x1_0000_0000_0000_0000) by(bit_vector);
}

// ---- the standard library ---------------------------------------------- [trusted]

pub open spec fn wrap128(x: int) -> int { x % b128() }

pub assume_specification [u128::overflowing_add] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a + b > u128::MAX), r.0 as int == if a + b > u128::MAX { a + b - b128() } else { a + b };
pub assume_specification [u128::overflowing_sub] (a: u128, b: u128) -> (r: (u128, bool))
    ensures r.1 == (a < b), r.0 as int == if a < b { a - b + b128() } else { a - b };
pub assume_specification [u128::leading_zeros] (a: u128) -> (r: u32)
    ensures a == 0 ==> r == 128,
        a != 0 ==> r < 128 && a * p2(r as nat) <= u128::MAX && a * p2(r as nat) >= b128() / 2;

pub struct NonZeroU128 { pub v: u128 }
impl Clone for NonZeroU128 { fn clone(&self) -> (r: Self) ensures r == *self { NonZeroU128 { v: self.v } } }
impl Copy for NonZeroU128 {}
impl NonZeroU128 {
    pub fn get(self) -> (r: u128) ensures r == self.v { self.v }
    pub fn leading_zeros(self) -> (r: u32)
        ensures self.v == 0 ==> r == 128,
            self.v != 0 ==> r < 128 && self.v * p2(r as nat) <= u128::MAX && self.v * p2(r as nat) >= b128() / 2
    { self.v.leading_zeros() }
    pub unsafe fn new_unchecked(v: u128) -> (r: Self) requires v != 0 ensures r.v == v { NonZeroU128 { v } }
}

pub struct MaybeUninit<T> { pub v: T }
impl<T> MaybeUninit<T> {
    pub fn write(&mut self, x: T) ensures final(self).v == x { self.v = x; }
}
// Wrapping arithmetic with opaque results.
#[verifier::opaque] pub open spec fn s_wadd(a: u128, b: u128) -> u128 { ((a + b) % b128()) as u128 }
#[verifier::opaque] pub open spec fn s_wsub(a: u128, b: u128) -> u128 { ((a - b) % b128()) as u128 }
#[verifier::opaque] pub open spec fn s_wmul(a: u128, b: u128) -> u128 { ((a * b) % b128()) as u128 }
pub trait WrapOps: Sized {
    spec fn sp_add(self, b: Self) -> Self;
    spec fn sp_sub(self, b: Self) -> Self;
    spec fn sp_mul(self, b: Self) -> Self;
    fn w_add(self, b: Self) -> (r: Self) ensures r == self.sp_add(b);
    fn w_sub(self, b: Self) -> (r: Self) ensures r == self.sp_sub(b);
    fn w_mul(self, b: Self) -> (r: Self) ensures r == self.sp_mul(b);
}
impl WrapOps for u128 {
    open spec fn sp_add(self, b: u128) -> u128 { s_wadd(self, b) }
    open spec fn sp_sub(self, b: u128) -> u128 { s_wsub(self, b) }
    open spec fn sp_mul(self, b: u128) -> u128 { s_wmul(self, b) }
    fn w_add(self, b: u128) -> (r: u128) { proof { reveal(s_wadd); wrap_once(self + b); } self.wrapping_add(b) }
    fn w_sub(self, b: u128) -> (r: u128) { proof { reveal(s_wsub); wrap_once(self - b); } self.wrapping_sub(b) }
    fn w_mul(self, b: u128) -> (r: u128) { proof { reveal(s_wmul); } self.wrapping_mul(b) }
}
pub proof fn wrap_once(x: int)
    requires -b128() <= x < 2 * b128()
    ensures x % b128() == (if x < 0 { x + b128() } else if x >= b128() { x - b128() } else { x })
{
    let m = b128();
    if x < 0 { lemma_mod_add_multiples_vanish(x, m); lemma_small_mod((x + m) as nat, m as nat); }
    else if x >= m { lemma_mod_sub_multiples_vanish(x, m); lemma_small_mod((x - m) as nat, m as nat); }
    else { lemma_small_mod(x as nat, m as nat); }
}
pub fn unreachable() requires false {}
pub fn dbg_check(c: bool) requires c {}

// ---- the crate's own items below the extracted functions ---------------- [trusted here, proved in C05, C07, C09]

pub struct U256(pub [u128; 2]);
impl Clone for U256 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for U256 {}
impl U256 {
    pub open spec fn lo(self) -> int { self.0[0] as int }
    pub open spec fn hi(self) -> int { self.0[1] as int }
    pub open spec fn val(self) -> int { self.0[1] * b128() + self.0[0] }
    pub const ZERO: U256 = U256([0, 0]);
    pub fn low(&self) -> (r: &u128) ensures *r == self.0[0] { &self.0[0] }
    pub fn high(&self) -> (r: &u128) ensures *r == self.0[1] { &self.0[1] }
    #[verifier::external_body]
    pub fn low_mut(&mut self) -> (r: &mut u128)
        ensures *r == old(self).0[0], *final(r) == final(self).0[0], final(self).0[1] == old(self).0[1]
    { &mut self.0[0] }
    #[verifier::external_body]
    pub fn high_mut(&mut self) -> (r: &mut u128)
        ensures *r == old(self).0[1], *final(r) == final(self).0[1], final(self).0[0] == old(self).0[0]
    { &mut self.0[1] }
    pub const fn from_words(hi: u128, lo: u128) -> (r: Self) ensures r.0[1] == hi, r.0[0] == lo { U256([lo, hi]) }
}
impl PartialEq for U256 {
    #[verifier::external_body]
    fn eq(&self, o: &U256) -> (r: bool) ensures r == (self.val() == o.val()) { unimplemented!() }
}
impl PartialOrd for U256 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &U256) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &U256) -> (r: bool) ensures r == (self.val() > o.val()) { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &U256) -> (r: bool) ensures r == (self.val() < o.val()) { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &U256) -> (r: bool) ensures r == (self.val() >= o.val()) { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &U256) -> (r: bool) ensures r == (self.val() <= o.val()) { unimplemented!() }
}
impl core::ops::Shl<u32> for U256 {
    type Output = U256;
    #[verifier::external_body]
    fn shl(self, n: u32) -> (r: U256)
        ensures self.val() * p2(n as nat) < b128() * b128() ==> r.val() == self.val() * p2(n as nat)
    { unimplemented!() }
}
impl vstd::std_specs::ops::ShlSpecImpl<u32> for U256 {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, n: u32) -> bool { n < 256 }
    open spec fn shl_spec(self, n: u32) -> U256 { arbitrary() }
}
impl core::ops::Shr<u32> for U256 {
    type Output = U256;
    #[verifier::external_body]
    fn shr(self, n: u32) -> (r: U256)
        ensures r.val() * p2(n as nat) <= self.val() < r.val() * p2(n as nat) + p2(n as nat)
    { unimplemented!() }
}
impl vstd::std_specs::ops::ShrSpecImpl<u32> for U256 {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, n: u32) -> bool { n < 256 }
    open spec fn shr_spec(self, n: u32) -> U256 { arbitrary() }
}

} // verus!
