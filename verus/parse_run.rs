// Run-time parsing: what a text spells, the contracts of what the extracted
// functions call, and the lemmas of their proofs.
verus! {

pub open spec fn mod256() -> int { b128() * b128() }
pub open spec fn fu(x: int) -> bool { 0 <= x < mod256() }
pub open spec fn fi(x: int) -> bool { -mod256() / 2 <= x < mod256() / 2 }
#[verifier::opaque]
pub open spec fn fits(signed: bool, x: int) -> bool { if signed { fi(x) } else { fu(x) } }

/// Whether the call at hand may panic.
pub uninterp spec fn rejectable() -> bool;
#[verifier::external_body]
pub fn reject<T>() -> (r: T) requires rejectable() ensures false { panic!() }

// ---- the meaning of a text

pub open spec fn digc(c: u8, radix: int) -> int {
    let d = if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 122 { c - 87 } else if 65 <= c <= 90 { c - 55 } else { 99 };
    if d < radix { d } else { -1 }
}
pub open spec fn dv(d: Seq<u8>, i: int, radix: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { dv(d, i - 1, radix) * radix + digc(d[i - 1], radix) }
}
#[verifier::opaque]
pub open spec fn good(d: Seq<u8>, n: int, radix: int) -> bool {
    forall|k: int| 0 <= k < n ==> digc(#[trigger] d[k], radix) >= 0
}
pub open spec fn signed_text(b: Seq<u8>, signed: bool) -> bool { b[0] == 43 || (signed && b[0] == 45) }
pub open spec fn unsigned_part(b: Seq<u8>, signed: bool) -> Seq<u8> {
    if signed_text(b, signed) { b.subrange(1, b.len() as int) } else { b }
}
pub open spec fn minus(b: Seq<u8>, signed: bool) -> bool { signed && b[0] == 45 }
pub open spec fn sgn(b: Seq<u8>, signed: bool) -> int { if minus(b, signed) { -1 } else { 1 } }
pub open spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.subrange(0, p.len() as int) =~= p }
pub open spec fn opt_bytes(p: Option<&Str>) -> Seq<u8> { match p { Some(s) => s.bytes(), None => Seq::empty() } }
/// The digits of a text with this prefix.
pub open spec fn digits_of(b: Seq<u8>, signed: bool, p: Seq<u8>) -> Seq<u8> {
    let u = unsigned_part(b, signed);
    u.subrange(p.len() as int, u.len() as int)
}
pub open spec fn numeral(b: Seq<u8>, signed: bool, p: Seq<u8>, radix: int) -> bool {
    b.len() > 0 && starts(unsigned_part(b, signed), p) && digits_of(b, signed, p).len() > 0
        && good(digits_of(b, signed, p), digits_of(b, signed, p).len() as int, radix)
}
pub open spec fn number(b: Seq<u8>, signed: bool, p: Seq<u8>, radix: int) -> int {
    sgn(b, signed) * dv(digits_of(b, signed, p), digits_of(b, signed, p).len() as int, radix)
}
pub open spec fn overflow_kind(b: Seq<u8>, signed: bool) -> IntErrorKind {
    if minus(b, signed) { IntErrorKind::NegOverflow } else { IntErrorKind::PosOverflow }
}
/// Some valid leading digits already exceed the type.
pub open spec fn too_long(d: Seq<u8>, s: int, signed: bool, radix: int) -> bool {
    exists|k: int| 0 <= k <= d.len() && #[trigger] good(d, k, radix) && !fits(signed, s * dv(d, k, radix))
}
/// What from_str_radix must answer.
#[verifier::opaque]
pub open spec fn answer(r: Result<int, IntErrorKind>, b: Seq<u8>, signed: bool, p: Seq<u8>, radix: int) -> bool {
    match r {
        Ok(v) => numeral(b, signed, p, radix) && v == number(b, signed, p, radix) && fits(signed, v),
        Err(e) => if b.len() == 0 { e == IntErrorKind::Empty }
            else if numeral(b, signed, p, radix) { !fits(signed, number(b, signed, p, radix)) && e == overflow_kind(b, signed) }
            else { e == IntErrorKind::InvalidDigit || (starts(unsigned_part(b, signed), p)
                && too_long(digits_of(b, signed, p), sgn(b, signed), signed, radix) && e == overflow_kind(b, signed)) },
    }
}
/// What from_str_prefixed must answer: the form is chosen by the prefix.
pub open spec fn prefixed(r: Result<int, IntErrorKind>, b: Seq<u8>, signed: bool) -> bool {
    match r {
        Ok(v) => answer(r, b, signed, pfx(98), 2) || answer(r, b, signed, pfx(111), 8) || answer(r, b, signed, pfx(120), 16)
            || answer(r, b, signed, Seq::empty(), 10),
        Err(e) => !fits_as(b, signed, pfx(98), 2) && !fits_as(b, signed, pfx(111), 8) && !fits_as(b, signed, pfx(120), 16)
            && answer(Err(e), b, signed, Seq::empty(), 10),
    }
}
pub open spec fn fits_as(b: Seq<u8>, signed: bool, p: Seq<u8>, radix: int) -> bool {
    numeral(b, signed, p, radix) && fits(signed, number(b, signed, p, radix))
}
pub open spec fn pfx(c: u8) -> Seq<u8> { seq![48u8, c] }

// ---- lemmas

pub proof fn dv_bound(d: Seq<u8>, i: int, radix: int)
    requires good(d, i, radix), 1 <= radix <= 16, 0 <= i
    ensures 0 <= dv(d, i, radix) <= p2((4 * i) as nat) - 1
    decreases i
{
    reveal(good);
    if i > 0 {
        dv_bound(d, i - 1, radix);
        let (x, p) = (dv(d, i - 1, radix), p2((4 * (i - 1)) as nat));
        times16(i - 1);
        assert(0 <= digc(d[i - 1], radix) < radix);
        assert(x * radix <= (p - 1) * radix) by(nonlinear_arith) requires 0 <= x <= p - 1, radix >= 0;
        assert((p - 1) * radix <= (p - 1) * 16) by(nonlinear_arith) requires 0 <= p - 1, radix <= 16;
        assert(x * radix >= 0) by(nonlinear_arith) requires x >= 0, radix >= 0;
        assert((p - 1) * radix + radix - 1 == p * radix - 1) by(nonlinear_arith);
        assert(p * radix <= p * 16) by(nonlinear_arith) requires p >= 0, radix <= 16;
    }
}
pub proof fn times16(i: int) requires i >= 0 ensures p2((4 * (i + 1)) as nat) == 16 * p2((4 * i) as nat), p2((4 * i) as nat) >= 1
{
    p2_pos((4 * i) as nat);
    p2_add(4, (4 * i) as nat);
    assert(p2(4) == 16) by(compute);
    assert((4 + 4 * i) as nat == (4 * (i + 1)) as nat);
}
pub proof fn p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b
{
    if a < b { p2_mono(a, (b - 1) as nat); p2_pos((b - 1) as nat); }
}
pub proof fn limits()
    ensures p2(256) == mod256(), p2(252) * 16 == mod256(), mod256() == 2 * (mod256() / 2), -mod256() / 2 == -(mod256() / 2), mod256() >= 1000,
{
    p2_64();
    p2_add(128, 128);
    times16(63);
    assert(b128() * b128() == 2 * ((b128() / 2) * b128())) by(nonlinear_arith) requires b128() == 2 * (b128() / 2);
    assert(b128() * b128() >= 1000) by(nonlinear_arith) requires b128() >= 1000;
}
/// A short text cannot overflow.
pub proof fn short_fits(d: Seq<u8>, i: int, radix: int, signed: bool, s: int)
    requires good(d, i, radix), 2 <= radix <= 16, 0 <= i <= (if signed { 63int } else { 64 }), s == 1 || s == -1, s == -1 ==> signed
    ensures fits(signed, s * dv(d, i, radix)), dv(d, i, radix) >= 0,
{
    reveal(fits);
    dv_bound(d, i, radix);
    limits();
    p2_mono((4 * i) as nat, if signed { 252 } else { 256 });
    let x = dv(d, i, radix);
    assert(s * x == x || s * x == -x) by(nonlinear_arith) requires s == 1 || s == -1;
    assert(s == 1 ==> s * x == x) by(nonlinear_arith);
}
/// Nor can its product with the radix, whatever the next byte is.
pub proof fn short_times(d: Seq<u8>, i: int, radix: int, signed: bool, s: int)
    requires good(d, i, radix), 2 <= radix <= 16, 0 <= i < (if signed { 63int } else { 64 }), s == 1 || s == -1, s == -1 ==> signed
    ensures fits(signed, s * dv(d, i, radix) * radix)
{
    reveal(fits);
    dv_bound(d, i, radix);
    times16(i);
    limits();
    p2_mono((4 * (i + 1)) as nat, if signed { 252 } else { 256 });
    let (x, p) = (dv(d, i, radix), p2((4 * i) as nat));
    assert(0 <= x * radix <= (p - 1) * 16) by(nonlinear_arith) requires 0 <= x <= p - 1, 0 <= radix <= 16;
    assert(s * x == x || s * x == -x) by(nonlinear_arith) requires s == 1 || s == -1;
    assert(s == 1 ==> s * x == x) by(nonlinear_arith);
    assert((-x) * radix == -(x * radix)) by(nonlinear_arith);
}
pub proof fn good_split(d: Seq<u8>, i: int, radix: int)
    requires i >= 1
    ensures good(d, i, radix) == (good(d, i - 1, radix) && digc(d[i - 1], radix) >= 0)
{
    reveal(good);
    if good(d, i - 1, radix) && digc(d[i - 1], radix) >= 0 {
        assert forall|k: int| 0 <= k < i implies digc(#[trigger] d[k], radix) >= 0 by { if k == i - 1 {} else {} }
    }
}
pub proof fn dv_nonneg(d: Seq<u8>, i: int, radix: int)
    requires good(d, i, radix), radix >= 2
    ensures dv(d, i, radix) >= 0
    decreases i
{
    reveal(good);
    if i > 0 {
        good_split(d, i, radix);
        dv_nonneg(d, i - 1, radix);
        let x = dv(d, i - 1, radix);
        assert(x * radix >= 0) by(nonlinear_arith) requires x >= 0, radix >= 0;
    }
}
pub proof fn dv_mono(d: Seq<u8>, k: int, n: int, radix: int)
    requires good(d, n, radix), radix >= 2, 0 <= k <= n
    ensures 0 <= dv(d, k, radix) <= dv(d, n, radix)
    decreases n
{
    reveal(good);
    dv_nonneg(d, n, radix);
    if k < n {
        good_split(d, n, radix);
        dv_mono(d, k, n - 1, radix);
        let x = dv(d, n - 1, radix);
        assert(x * radix >= x) by(nonlinear_arith) requires x >= 0, radix >= 1;
    }
}
/// Once out of range, out of range.
pub proof fn stays_out(d: Seq<u8>, radix: int, signed: bool, s: int)
    requires too_long(d, s, signed, radix), good(d, d.len() as int, radix), radix >= 2, s == 1 || s == -1, s == -1 ==> signed
    ensures !fits(signed, s * dv(d, d.len() as int, radix))
{
    reveal(fits);
    let n = d.len() as int;
    let k = choose|k: int| 0 <= k <= d.len() && #[trigger] good(d, k, radix) && !fits(signed, s * dv(d, k, radix));
    dv_mono(d, k, n, radix);
    limits();
    let (x, y) = (dv(d, k, radix), dv(d, n, radix));
    assert(s == 1 ==> s * x == x && s * y == y) by(nonlinear_arith);
    assert(s == -1 ==> s * x == -x && s * y == -y) by(nonlinear_arith);
}
/// One step of the loops: r = s * dv(i), the next digit is c.
pub proof fn step(d: Seq<u8>, i: int, radix: int, s: int, c: int, signed: bool, r: int)
    requires 0 <= i < d.len(), radix >= 2, good(d, i, radix), c == digc(d[i], radix), s == 1 || s == -1, s == -1 ==> signed,
        r == s * dv(d, i, radix), fits(signed, r),
    ensures c >= 0 ==> good(d, i + 1, radix) && s * dv(d, i + 1, radix) == r * radix + s * c,
        c < 0 ==> !good(d, d.len() as int, radix),
        c >= 0 && fits(signed, r * radix + s * c) ==> fits(signed, r * radix),
        c >= 0 && !fits(signed, r * radix + s * c) ==> too_long(d, s, signed, radix),
        c >= 0 && !fits(signed, r * radix) ==> too_long(d, s, signed, radix),
        s == 1 ==> r >= 0, s == -1 ==> r <= 0, s == 1 ==> s * c == c, s == -1 ==> s * c == -c,
{
    reveal(fits); reveal(good);
    good_split(d, i + 1, radix);
    dv_nonneg(d, i, radix);
    limits();
    let x = dv(d, i, radix);
    assert(s == 1 ==> s * c == c && s * x == x) by(nonlinear_arith);
    assert(s == -1 ==> s * c == -c && s * x == -x) by(nonlinear_arith);
    if c >= 0 {
        let y = dv(d, i + 1, radix);
        assert(y == x * radix + c);
        assert(s * (x * radix + c) == (s * x) * radix + s * c) by(nonlinear_arith);
        assert(r >= 0 ==> r * radix >= 0) by(nonlinear_arith) requires radix >= 0;
        assert(r <= 0 ==> r * radix <= 0) by(nonlinear_arith) requires radix >= 0;
        if !fits(signed, r * radix) { assert(!fits(signed, r * radix + s * c)); }
        if !fits(signed, r * radix + s * c) {
            assert(good(d, i + 1, radix) && !fits(signed, s * dv(d, i + 1, radix)));
        }
    } else {
        assert(digc(d[i], radix) < 0);
    }
}

pub open spec fn live(text: Seq<u8>, signed: bool, p: Seq<u8>, d: Seq<u8>) -> bool {
    text.len() > 0 && starts(unsigned_part(text, signed), p) && d == digits_of(text, signed, p) && d.len() > 0
}
#[verifier::opaque]
pub open spec fn alive(text: Seq<u8>, signed: bool, p: Seq<u8>, d: Seq<u8>) -> bool { live(text, signed, p, d) }
#[verifier::opaque]
pub open spec fn sval(d: Seq<u8>, i: int, radix: int, s: int) -> int { s * dv(d, i, radix) }
pub open spec fn bad(text: Seq<u8>, signed: bool, p: Seq<u8>, radix: int, e: IntErrorKind) -> bool {
    answer(Err(e), text, signed, p, radix)
}
/// One turn of a loop over the digits.
pub proof fn turn(text: Seq<u8>, signed: bool, p: Seq<u8>, radix: int, d: Seq<u8>, i: int, s: int, r: int, c: int)
    requires alive(text, signed, p, d), 0 <= i < d.len(), 2 <= radix <= 36, good(d, i, radix), r == sval(d, i, radix, s),
        s == sgn(text, signed), fits(signed, r), c == digc(d[i], radix),
    ensures
        c < 0 ==> bad(text, signed, p, radix, IntErrorKind::InvalidDigit),
        c >= 0 ==> good(d, i + 1, radix),
        c >= 0 && s == 1 ==> sval(d, i + 1, radix, s) == r * radix + c,
        c >= 0 && s == -1 ==> sval(d, i + 1, radix, s) == r * radix - c,
        c >= 0 && !fits(signed, r * radix) ==> bad(text, signed, p, radix, overflow_kind(text, signed)),
        c >= 0 && !fits(signed, sval(d, i + 1, radix, s)) ==> bad(text, signed, p, radix, overflow_kind(text, signed)),
        radix <= 16 && d.len() <= (if signed { 63int } else { 64 }) ==> fits(signed, r * radix)
            && (c >= 0 ==> fits(signed, sval(d, i + 1, radix, s))),
{
    reveal(alive);
    reveal(sval);
    reveal(answer);
    step(d, i, radix, s, c, signed, r);
    if radix <= 16 && d.len() <= (if signed { 63int } else { 64 }) {
        short_times(d, i, radix, signed, s);
        if c >= 0 { short_fits(d, i + 1, radix, signed, s); }
    }
    if c < 0 {
        reveal(good);
    } else if too_long(d, s, signed, radix) && good(d, d.len() as int, radix) {
        stays_out(d, radix, signed, s);
    }
}
pub proof fn begin(text: Seq<u8>, signed: bool, p: Seq<u8>, radix: int, d: Seq<u8>, s: int)
    requires 2 <= radix, s == sgn(text, signed)
    ensures good(d, 0, radix), sval(d, 0, radix, s) == 0, fits(signed, 0), live(text, signed, p, d) == alive(text, signed, p, d)
{
    reveal(good);
    reveal(sval);
    reveal(fits);
    reveal(alive);
    limits();
    assert(s * 0 == 0);
}
pub proof fn finish(text: Seq<u8>, signed: bool, p: Seq<u8>, radix: int, d: Seq<u8>, s: int, r: int)
    requires alive(text, signed, p, d), good(d, d.len() as int, radix), r == sval(d, d.len() as int, radix, s), s == sgn(text, signed), fits(signed, r),
    ensures answer(Ok(r), text, signed, p, radix)
{
    reveal(alive);
    reveal(sval);
    reveal(answer);
}
/// The refusals before the first digit is read.
pub proof fn early(text: Seq<u8>, signed: bool, p: Seq<u8>, radix: int)
    ensures text.len() == 0 ==> bad(text, signed, p, radix, IntErrorKind::Empty),
        text.len() == 1 && (text[0] == 43 || text[0] == 45) && radix <= 36 ==> bad(text, signed, p, radix, IntErrorKind::InvalidDigit),
        text.len() > 0 && !starts(unsigned_part(text, signed), p) ==> bad(text, signed, p, radix, IntErrorKind::InvalidDigit),
        text.len() > 0 && digits_of(text, signed, p).len() == 0 ==> bad(text, signed, p, radix, IntErrorKind::InvalidDigit),
{
    reveal(answer);
    if text.len() == 1 && (text[0] == 43 || text[0] == 45) && radix <= 36 && numeral(text, signed, p, radix) {
        reveal(good);
        let d = digits_of(text, signed, p);
        assert(d.len() == 1 && p.len() == 0 && d[0] == text[0]);
        assert(digc(d[0], radix) >= 0);
    }
}

pub proof fn refusals(b: Seq<u8>, signed: bool)
    ensures forall|e: IntErrorKind, p: Seq<u8>, r: int| #[trigger] answer(Err(e), b, signed, p, r) ==> !fits_as(b, signed, p, r)
{
    reveal(answer);
}

// ---- the crate's items and the standard library -------------------------- [trusted]

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum IntErrorKind { Empty, InvalidDigit, PosOverflow, NegOverflow, Zero }
pub struct ParseIntError { pub kind: IntErrorKind }
pub mod error {
    use super::*;
    pub fn pie(kind: IntErrorKind) -> (r: ParseIntError) ensures r.kind == kind { ParseIntError { kind } }
}
pub mod mem {
    use super::*;
    /// Only asked for U256 and I256.
    #[verifier::external_body]
    pub fn size_of<T>() -> (r: usize) ensures r == 32 { core::mem::size_of::<T>() }
}
#[verifier::external_body]
pub struct Str { s: str }
impl Str {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bytes().len() == 0) { self.s.is_empty() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { self.s.as_bytes() }
}
/// A two-byte string literal.
#[verifier::external_body]
pub fn lit2(a: u8, b: u8) -> (r: &'static Str) ensures r.bytes() == seq![a, b] { unimplemented!() }
#[verifier::external_body]
pub fn strip_prefix<'a>(a: &'a [u8], p: &[u8]) -> (r: Option<&'a [u8]>)
    ensures r.is_some() == starts(a@, p@), r.is_some() ==> r.unwrap()@ == a@.subrange(p@.len() as int, a@.len() as int)
{ a.strip_prefix(p) }
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires 2 <= radix <= 36
    ensures (c as u32) < 256 ==> match r { Some(d) => d == digc((c as u32) as u8, radix as int), None => digc((c as u32) as u8, radix as int) < 0 };

pub struct I256(pub [i128; 2]);
impl Clone for I256 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for I256 {}
impl I256 { pub open spec fn val(self) -> int { self.0[1] * b128() + (self.0[0] as u128) } }

pub open spec fn outcome<T: FromStrRadixHelper>(r: Result<T, ParseIntError>) -> Result<int, IntErrorKind> {
    match r { Ok(v) => Ok(v.tv()), Err(e) => Err(e.kind) }
}
pub trait FromStrRadixHelper: Sized {
    spec fn tv(self) -> int;
    spec fn sg() -> bool;
    fn MIN_() -> (r: Self) ensures r.tv() == (if Self::sg() { -mod256() / 2 } else { 0 });
    fn from_u32(u: u32) -> (r: Self) ensures r.tv() == u;
    fn checked_mul(&self, other: u32) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(Self::sg(), v.tv()) && v.tv() == self.tv() * other, None => !fits(Self::sg(), self.tv() * other) };
    fn checked_sub(&self, other: u32) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(Self::sg(), v.tv()) && v.tv() == self.tv() - other, None => !fits(Self::sg(), self.tv() - other) };
    fn checked_add(&self, other: u32) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(Self::sg(), v.tv()) && v.tv() == self.tv() + other, None => !fits(Self::sg(), self.tv() + other) };
}
impl U256 {
    #[verifier::external_body]
    pub fn from(u: u32) -> (r: Self) ensures r.val() == u { unimplemented!() }
    #[verifier::external_body]
    pub fn i_checked_mul(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(false, v.val()) && v.val() == self.val() * o.val(), None => !fits(false, self.val() * o.val()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn i_checked_add(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(false, v.val()) && v.val() == self.val() + o.val(), None => !fits(false, self.val() + o.val()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn i_checked_sub(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(false, v.val()) && v.val() == self.val() - o.val(), None => !fits(false, self.val() - o.val()) } { unimplemented!() }
}
impl core::ops::Add for U256 {
    type Output = U256;
    #[verifier::external_body]
    fn add(self, o: U256) -> (r: U256) ensures r.val() == self.val() + o.val() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<U256> for U256 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: U256) -> bool { fits(false, self.val() + o.val()) }
    open spec fn add_spec(self, o: U256) -> U256 { arbitrary() }
}
impl core::ops::Sub for U256 {
    type Output = U256;
    #[verifier::external_body]
    fn sub(self, o: U256) -> (r: U256) ensures r.val() == self.val() - o.val() { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<U256> for U256 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: U256) -> bool { fits(false, self.val() - o.val()) }
    open spec fn sub_spec(self, o: U256) -> U256 { arbitrary() }
}
impl core::ops::Mul for U256 {
    type Output = U256;
    #[verifier::external_body]
    fn mul(self, o: U256) -> (r: U256) ensures r.val() == self.val() * o.val() { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<U256> for U256 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: U256) -> bool { fits(false, self.val() * o.val()) }
    open spec fn mul_spec(self, o: U256) -> U256 { arbitrary() }
}
impl I256 {
    #[verifier::external_body]
    pub fn from(u: u32) -> (r: Self) ensures r.val() == u { unimplemented!() }
    #[verifier::external_body]
    pub fn i_checked_mul(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(true, v.val()) && v.val() == self.val() * o.val(), None => !fits(true, self.val() * o.val()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn i_checked_add(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(true, v.val()) && v.val() == self.val() + o.val(), None => !fits(true, self.val() + o.val()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn i_checked_sub(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(v) => fits(true, v.val()) && v.val() == self.val() - o.val(), None => !fits(true, self.val() - o.val()) } { unimplemented!() }
}
impl core::ops::Add for I256 {
    type Output = I256;
    #[verifier::external_body]
    fn add(self, o: I256) -> (r: I256) ensures r.val() == self.val() + o.val() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<I256> for I256 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: I256) -> bool { fits(true, self.val() + o.val()) }
    open spec fn add_spec(self, o: I256) -> I256 { arbitrary() }
}
impl core::ops::Sub for I256 {
    type Output = I256;
    #[verifier::external_body]
    fn sub(self, o: I256) -> (r: I256) ensures r.val() == self.val() - o.val() { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<I256> for I256 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: I256) -> bool { fits(true, self.val() - o.val()) }
    open spec fn sub_spec(self, o: I256) -> I256 { arbitrary() }
}
impl core::ops::Mul for I256 {
    type Output = I256;
    #[verifier::external_body]
    fn mul(self, o: I256) -> (r: I256) ensures r.val() == self.val() * o.val() { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<I256> for I256 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: I256) -> bool { fits(true, self.val() * o.val()) }
    open spec fn mul_spec(self, o: I256) -> I256 { arbitrary() }
}
impl PartialEq for I256 {
    #[verifier::external_body]
    fn eq(&self, o: &I256) -> (r: bool) ensures r == (self.val() == o.val()) { unimplemented!() }
}
impl PartialOrd for I256 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &I256) -> Option<core::cmp::Ordering> { unimplemented!() }
    #[verifier::external_body]
    fn gt(&self, o: &I256) -> (r: bool) ensures r == (self.val() > o.val()) { unimplemented!() }
    #[verifier::external_body]
    fn lt(&self, o: &I256) -> (r: bool) ensures r == (self.val() < o.val()) { unimplemented!() }
    #[verifier::external_body]
    fn ge(&self, o: &I256) -> (r: bool) ensures r == (self.val() >= o.val()) { unimplemented!() }
    #[verifier::external_body]
    fn le(&self, o: &I256) -> (r: bool) ensures r == (self.val() <= o.val()) { unimplemented!() }
}
impl U256 {
    #[verifier::external_body]
    pub exec const MIN: U256 ensures U256::MIN.val() == 0 { U256([0, 0]) }
}
impl I256 {
    #[verifier::external_body]
    pub exec const MIN: I256 ensures I256::MIN.val() == -mod256() / 2 { I256([0, i128::MIN]) }
}
} // verus!
