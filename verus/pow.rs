// Exponentiation: what the extracted methods use, and the lemmas of their proofs.
use vstd::arithmetic::power::*;
verus! {

pub open spec fn mod256() -> int { b128() * b128() }
pub open spec fn cong(x: int, y: int) -> bool { x % mod256() == y % mod256() }
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }

// How `*` reports a product out of range: 0: it is never asked to; 1: it does not
// return (debug assertions); 2: it wraps.
pub uninterp spec fn mode() -> int;

pub struct I256(pub [i128; 2]);
impl Clone for I256 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for I256 {}

pub open spec fn fu(x: int) -> bool { 0 <= x < mod256() }
pub open spec fn fi(x: int) -> bool { -mod256() / 2 <= x < mod256() / 2 }

impl U256 {
    pub const ONE: U256 = U256([1, 0]);
    pub const MAX: U256 = U256([0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff]);
}

pub proof fn parity()
    ensures forall|x: u32| #[trigger] (x & 1) == x % 2, forall|x: u32| #[trigger] (x >> 1) == x / 2
{
    assert forall|x: u32| #[trigger] (x & 1) == x % 2 by { assert(x & 1 == x % 2) by(bit_vector); }
    assert forall|x: u32| #[trigger] (x >> 1) == x / 2 by { assert(x >> 1 == x / 2) by(bit_vector); }
}
pub proof fn mod_big() ensures mod256() >= 1000, mod256() / 2 >= 500, -mod256() / 2 == -(mod256() / 2), mod256() == 2 * (mod256() / 2)
{
    assert(b128() * b128() == 4 * ((b128() / 2) * (b128() / 2))) by(nonlinear_arith) requires b128() == 2 * (b128() / 2);
    assert((b128() / 2) * (b128() / 2) >= 1000) by(nonlinear_arith) requires b128() / 2 >= 1000;
}
pub proof fn cong_mul(x: int, y: int, u: int, v: int)
    requires cong(x, u), cong(y, v)
    ensures cong(x * y, u * v)
{
    mod_big();
    lemma_mul_mod_noop_general(x, y, mod256());
    lemma_mul_mod_noop_general(u, v, mod256());
}
// A power of magnitude 2^255 or more: the higher ones are at least twice as large.
pub proof fn grows(b: int, j: nat, i: nat)
    requires j <= i, abs(pow(b, j)) >= mod256() / 2
    ensures abs(pow(b, i)) >= abs(pow(b, j)), i > j ==> abs(pow(b, i)) >= mod256(),
        b >= 0 ==> pow(b, i) >= 0,
    decreases i
{
    mod_big();
    if b >= 0 { lemma_pow_nonneg(b, i); }
    if i > j {
        grows(b, j, (i - 1) as nat);
        reveal(pow);
        let p = pow(b, (i - 1) as nat);
        assert(pow(b, i) == b * p);
        if abs(b) <= 1 {
            small_powers(b, j);
            assert(false);
        }
        assert(abs(b * p) >= 2 * abs(p)) by(nonlinear_arith) requires abs(b) >= 2,
            abs(p) == (if p < 0 { -p } else { p }), abs(b) == (if b < 0 { -b } else { b }),
            abs(b * p) == (if b * p < 0 { -(b * p) } else { b * p });
    }
}
pub proof fn lemma_pow_nonneg(b: int, e: nat) requires b >= 0 ensures pow(b, e) >= 0 decreases e {
    reveal(pow);
    if e > 0 {
        lemma_pow_nonneg(b, (e - 1) as nat);
        let p = pow(b, (e - 1) as nat);
        assert(b * p >= 0) by(nonlinear_arith) requires b >= 0, p >= 0;
    }
}
pub proof fn small_powers(b: int, j: nat)
    requires abs(b) <= 1
    ensures abs(pow(b, j)) <= 1
    decreases j
{
    reveal(pow);
    if j > 0 {
        small_powers(b, (j - 1) as nat);
        let p = pow(b, (j - 1) as nat);
        assert(abs(b * p) <= 1) by(nonlinear_arith) requires -1 <= b <= 1, -1 <= p <= 1, abs(b * p) == (if b * p < 0 { -(b * p) } else { b * p });
    }
}
pub proof fn mono_u(b: int, j: nat, i: nat)
    requires j <= i, b >= 0
    ensures !fu(pow(b, j)) ==> !fu(pow(b, i))
{
    mod_big();
    lemma_pow_nonneg(b, j);
    lemma_pow_nonneg(b, i);
    if !fu(pow(b, j)) { grows(b, j, i); }
}
pub proof fn mono_i(b: int, j: nat, i: nat)
    requires j <= i
    ensures !fi(pow(b, j)) ==> !fi(pow(b, i))
{
    mod_big();
    if !fi(pow(b, j)) { grows(b, j, i); }
}
pub proof fn base_facts(b: int)
    ensures pow(b, 0) == 1, pow(b, 1) == b, fu(1), fi(1)
{
    mod_big();
    lemma_pow0(b);
    lemma_pow1(b);
}
// One iteration: acc = b^m, base = b^d, e0 = m + d*exp.
pub open spec fn step_ok(b: int, m: nat, d: nat, e0: nat, exp: int, acc: int, base: int) -> bool {
    &&& (exp % 2 == 1 ==> m + d + (2 * d) * (exp / 2) == e0)
    &&& (exp % 2 == 0 ==> m + (2 * d) * (exp / 2) == e0)
    &&& (acc == pow(b, m) && base == pow(b, d) ==> acc * base == pow(b, m + d) && base * base == pow(b, 2 * d))
    &&& (cong(acc, pow(b, m)) && cong(base, pow(b, d)) ==> cong(acc * base, pow(b, m + d)) && cong(base * base, pow(b, 2 * d)))
}
pub proof fn step(b: int, m: nat, d: nat, e0: nat, exp: int, acc: int, base: int)
    requires m + d * exp == e0, exp >= 0
    ensures
        step_ok(b, m, d, e0, exp, acc, base),
        exp == 1 ==> m + d == e0, exp == 0 ==> m == e0,
        exp >= 1 ==> m + d <= e0, exp >= 2 ==> 2 * d <= e0,
{
    lemma_pow_adds(b, m, d);
    lemma_pow_adds(b, d, d);
    if cong(acc, pow(b, m)) && cong(base, pow(b, d)) {
        cong_mul(acc, base, pow(b, m), pow(b, d));
        cong_mul(base, base, pow(b, d), pow(b, d));
    }
    let h = exp / 2;
    if exp % 2 == 1 {
        assert(d * exp == (2 * d) * h + d) by(nonlinear_arith) requires exp == 2 * h + 1;
    } else {
        assert(d * exp == (2 * d) * h) by(nonlinear_arith) requires exp == 2 * h;
    }
    assert(exp >= 1 ==> d * exp >= d) by(nonlinear_arith) requires d >= 0;
    assert(exp >= 2 ==> d * exp >= 2 * d) by(nonlinear_arith) requires d >= 0;
    assert(exp == 0 ==> d * exp == 0) by(nonlinear_arith);
    assert(exp == 1 ==> d * exp == d) by(nonlinear_arith);
}
pub proof fn mono_all(b: int, m: nat, d: nat, e0: nat, exp: int)
    requires exp >= 1 ==> m + d <= e0, exp >= 2 ==> 2 * d <= e0
    ensures
        exp >= 1 && !fi(pow(b, m + d)) ==> !fi(pow(b, e0)),
        exp >= 2 && !fi(pow(b, 2 * d)) ==> !fi(pow(b, e0)),
        b >= 0 && exp >= 1 && !fu(pow(b, m + d)) ==> !fu(pow(b, e0)),
        b >= 0 && exp >= 2 && !fu(pow(b, 2 * d)) ==> !fu(pow(b, e0)),
{
    if exp >= 1 { mono_i(b, m + d, e0); if b >= 0 { mono_u(b, m + d, e0); } }
    if exp >= 2 { mono_i(b, 2 * d, e0); if b >= 0 { mono_u(b, 2 * d, e0); } }
}
pub proof fn u_range(a: U256) ensures fu(a.val()) {
    assert(0 <= a.0[1] * b128() <= (b128() - 1) * b128()) by(nonlinear_arith) requires 0 <= a.0[1] <= b128() - 1;
    assert((b128() - 1) * b128() == b128() * b128() - b128()) by(nonlinear_arith);
}
// The sign of a power.
pub proof fn pow_sign(b: int, e: nat)
    ensures b < 0 && e % 2 == 1 ==> pow(b, e) < 0, b >= 0 || e % 2 == 0 ==> pow(b, e) >= 0
    decreases e
{
    reveal(pow);
    if e > 0 {
        pow_sign(b, (e - 1) as nat);
        let p = pow(b, (e - 1) as nat);
        if b < 0 {
            if e % 2 == 1 {
                assert(p > 0) by { lemma_even(b, (e - 1) as nat); }
                assert(b * p < 0) by(nonlinear_arith) requires b < 0, p > 0;
            } else {
                assert(b * p >= 0) by(nonlinear_arith) requires b < 0, p < 0;
            }
        } else {
            lemma_pow_nonneg(b, e);
        }
    }
}
pub proof fn lemma_even(b: int, e: nat)
    requires b < 0
    ensures pow(b, e) != 0
    decreases e
{
    reveal(pow);
    if e > 0 {
        lemma_even(b, (e - 1) as nat);
        let p = pow(b, (e - 1) as nat);
        assert(b * p != 0) by(nonlinear_arith) requires b != 0, p != 0;
    }
}

pub proof fn extremes()
    ensures U256::MAX.val() == mod256() - 1, I256::MAX.val() == mod256() / 2 - 1, I256::MIN.val() == -mod256() / 2
{
    mod_big();
    assert((b128() - 1) * b128() + (b128() - 1) == b128() * b128() - 1) by(nonlinear_arith);
    let h = b128() / 2;
    assert((h - 1) * b128() + (b128() - 1) == h * b128() - 1) by(nonlinear_arith);
    assert((-h) * b128() == -(h * b128())) by(nonlinear_arith);
    assert(2 * (h * b128()) == b128() * b128()) by(nonlinear_arith) requires b128() == 2 * h;
    assert((-1i128) as u128 == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) by(bit_vector);
}
// ---- comparison with a primitive (C07) ------------------------------------ [trusted]
impl PartialEq<i128> for I256 {
    #[verifier::external_body]
    fn eq(&self, o: &i128) -> (r: bool) ensures r == (self.val() == *o) { unimplemented!() }
}
impl PartialOrd<i128> for I256 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &i128) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &i128) -> (r: bool) ensures r == (self.val() > *o) { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &i128) -> (r: bool) ensures r == (self.val() < *o) { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &i128) -> (r: bool) ensures r == (self.val() >= *o) { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &i128) -> (r: bool) ensures r == (self.val() <= *o) { unimplemented!() }
}

// ---- multiplication (contracts proved in C02) ----------------------------- [trusted]
impl U256 {
    #[verifier::external_body]
    pub fn wrapping_mul(self, o: U256) -> (r: U256) ensures cong(r.val(), self.val() * o.val()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: U256) -> (r: Option<U256>)
        ensures r is Some ==> r->0.val() == self.val() * o.val(), r is None ==> !fu(self.val() * o.val())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn overflowing_mul(self, o: U256) -> (r: (U256, bool))
        ensures cong(r.0.val(), self.val() * o.val()), r.1 == !fu(self.val() * o.val()),
            !r.1 ==> r.0.val() == self.val() * o.val()
    { unimplemented!() }
}
impl core::ops::Mul for U256 {
    type Output = U256;
    #[verifier::external_body]
    fn mul(self, o: U256) -> (r: U256)
        ensures mode() <= 1 ==> r.val() == self.val() * o.val(), cong(r.val(), self.val() * o.val())
    { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<U256> for U256 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: U256) -> bool { mode() == 0 ==> fu(self.val() * o.val()) }
    open spec fn mul_spec(self, o: U256) -> U256 { arbitrary() }
}
impl I256 {
    pub open spec fn val(self) -> int { self.0[1] * b128() + (self.0[0] as u128) }
    pub const ONE: I256 = I256([1, 0]);
    pub const MAX: I256 = I256([-1, 0x7fff_ffff_ffff_ffff_ffff_ffff_ffff_ffff]);
    pub const MIN: I256 = I256([0, -0x8000_0000_0000_0000_0000_0000_0000_0000]);
    #[verifier::external_body]
    pub fn wrapping_mul(self, o: I256) -> (r: I256) ensures cong(r.val(), self.val() * o.val()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: I256) -> (r: Option<I256>)
        ensures r is Some ==> r->0.val() == self.val() * o.val(), r is None ==> !fi(self.val() * o.val())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn overflowing_mul(self, o: I256) -> (r: (I256, bool))
        ensures cong(r.0.val(), self.val() * o.val()), r.1 == !fi(self.val() * o.val()),
            !r.1 ==> r.0.val() == self.val() * o.val()
    { unimplemented!() }
}
impl core::ops::Mul for I256 {
    type Output = I256;
    #[verifier::external_body]
    fn mul(self, o: I256) -> (r: I256)
        ensures mode() <= 1 ==> r.val() == self.val() * o.val(), cong(r.val(), self.val() * o.val())
    { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<I256> for I256 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: I256) -> bool { mode() == 0 ==> fi(self.val() * o.val()) }
    open spec fn mul_spec(self, o: I256) -> I256 { arbitrary() }
}
} // verus!
