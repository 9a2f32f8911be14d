//! Mathematical product and quotient of 256-bit naturals.
//!
//! Natively these are computed (schoolbook multiplication, bit-serial
//! division).  Under Kani they are uninterpreted functions constrained by
//! facts of integer arithmetic only (facts.rs; Verus proves each of them), so
//! that what is proved from them holds for the real product and quotient.

use crate::facts;
use crate::spec::*;
use ethnum::{I256, U256};

#[cfg(not(kani))]
mod imp {
    use super::*;

    fn limbs(a: U256) -> [u64; 4] {
        [a.0[0] as u64, (a.0[0] >> 64) as u64, a.0[1] as u64, (a.0[1] >> 64) as u64]
    }
    /// The low 256 bits of a*b, and whether a*b >= 2^256.
    pub fn umul(a: U256, b: U256) -> (U256, bool) {
        let (x, y) = (limbs(a), limbs(b));
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = x[i] as u128 * y[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + 4] = c as u64;
        }
        let w = |i: usize| r[i] as u128 | (r[i + 1] as u128) << 64;
        (mku(w(2), w(0)), w(4) != 0 || w(6) != 0)
    }
    /// floor(n / d) and n mod d, d != 0.
    pub fn udiv(n: U256, d: U256) -> (U256, U256) {
        let (mut q, mut r) = ((0, 0), (0u128, 0u128));
        let d = uw(d);
        let mut i = 256;
        while i > 0 {
            i -= 1;
            let top = r.0 >> 127 == 1;
            r = wshl(r, 1);
            r.1 |= bit(uw(n), i) as u128;
            q = wshl(q, 1);
            if top || r >= d {
                let (l, b) = r.1.overflowing_sub(d.1);
                r = (r.0.wrapping_sub(d.0).wrapping_sub(b as u128), l);
                q.1 |= 1;
            }
        }
        (mku(q.0, q.1), mku(r.0, r.1))
    }
}

#[cfg(kani)]
mod imp {
    use super::*;

    const N: usize = 4;
    #[derive(Clone, Copy)]
    struct Mul {
        used: bool,
        a: U256,
        b: U256,
        lo: U256,
        ovf: bool,
    }
    #[derive(Clone, Copy)]
    struct Div {
        used: bool,
        n: U256,
        d: U256,
        q: U256,
        r: U256,
    }
    static mut MULS: [Mul; N] = [Mul { used: false, a: UZERO, b: UZERO, lo: UZERO, ovf: false }; N];
    static mut DIVS: [Div; N] = [Div { used: false, n: UZERO, d: UZERO, q: UZERO, r: UZERO }; N];

    fn any() -> U256 {
        U256([kani::any(), kani::any()])
    }
    fn link(m: &Mul, d: &Div) {
        kani::assume(facts::link_facts(m.a, m.b, m.lo, m.ovf, d.n, d.d, d.q));
    }

    /// The product as the specification uses it: remembered, so that the
    /// contracts' products of the same operands are the same.
    pub fn umul(a: U256, b: U256) -> (U256, bool) {
        umul_(a, b, true)
    }
    /// The product as a contract returns it.
    pub fn umul_q(a: U256, b: U256) -> (U256, bool) {
        umul_(a, b, false)
    }
    pub fn udiv(a: U256, b: U256) -> (U256, U256) {
        udiv_(a, b, true)
    }
    pub fn udiv_q(a: U256, b: U256) -> (U256, U256) {
        udiv_(a, b, false)
    }
    fn umul_(a: U256, b: U256, store: bool) -> (U256, bool) {
        // The product modulo 2^256, up to sign.
        let (x, y) = (facts::mag(a), facts::mag(b));
        let mut base = any();
        kani::assume(facts::lo_facts(x, y, base));
        let mut ovf: bool = kani::any();
        unsafe {
            let mut i = 0;
            while i < N {
                let m = MULS[i];
                if m.used {
                    let (mx, my) = (facts::mag(m.a), facts::mag(m.b));
                    if (ueq(mx, x) && ueq(my, y)) || (ueq(mx, y) && ueq(my, x)) {
                        base = facts::to_mag(m.a, m.b, m.lo);
                    }
                    if (ueq(m.a, a) && ueq(m.b, b)) || (ueq(m.a, b) && ueq(m.b, a)) {
                        ovf = m.ovf;
                    }
                }
                i += 1;
            }
        }
        kani::assume(facts::ovf_facts(a, b, ovf));
        let lo = facts::from_mag(a, b, base);
        let m = Mul { used: true, a, b, lo, ovf };
        unsafe {
            let mut i = 0;
            while i < N {
                let d = DIVS[i];
                if d.used {
                    link(&m, &d);
                }
                i += 1;
            }
            let mut i = 0;
            let mut done = !store;
            while i < N {
                if !done && !MULS[i].used {
                    MULS[i] = m;
                    done = true;
                }
                i += 1;
            }
        }
        (lo, ovf)
    }

    fn udiv_(n: U256, d: U256, store: bool) -> (U256, U256) {
        assert!(!ueq(d, UZERO)); // precondition
        let (mut q, mut r) = (any(), any());
        kani::assume(facts::div_facts(n, d, q, r));
        unsafe {
            let mut i = 0;
            while i < N {
                let e = DIVS[i];
                if e.used {
                    if ueq(e.n, n) && ueq(e.d, d) {
                        q = e.q;
                        r = e.r;
                    }
                }
                i += 1;
            }
        }
        let e = Div { used: true, n, d, q, r };
        unsafe {
            let mut i = 0;
            while i < N {
                let m = MULS[i];
                if m.used {
                    link(&m, &e);
                }
                i += 1;
            }
            let mut i = 0;
            let mut done = !store;
            while i < N {
                if !done && !DIVS[i].used {
                    DIVS[i] = e;
                    done = true;
                }
                i += 1;
            }
        }
        (q, r)
    }
}

pub use imp::*;
#[cfg(not(kani))]
pub use imp::{udiv as udiv_q, umul as umul_q};

/// Exact signed product: low words and "not representable".
pub fn imul(a: I256, b: I256) -> (I256, bool) {
    imul_with(a, b, umul)
}
pub fn imul_q(a: I256, b: I256) -> (I256, bool) {
    imul_with(a, b, umul_q)
}
fn imul_with(a: I256, b: I256, umul: impl Fn(U256, U256) -> (U256, bool)) -> (I256, bool) {
    let (x, y) = (X::i(a).abs().wu(), X::i(b).abs().wu());
    let neg = X::i(a).is_neg() != X::i(b).is_neg();
    let (lo, ovf) = umul(x, y);
    let limit = if neg { mku(1 << 127, 0) } else { mku(u128::MAX >> 1, u128::MAX) };
    let ovf = ovf || uw(lo) > uw(limit);
    let r = if neg { X::u(lo).neg() } else { X::u(lo) };
    (r.wi(), ovf)
}

/// Truncated signed quotient and remainder as exact integers.
pub fn idiv(a: I256, b: I256) -> (X, X) {
    idiv_with(a, b, udiv)
}
pub fn idiv_q(a: I256, b: I256) -> (X, X) {
    idiv_with(a, b, udiv_q)
}
fn idiv_with(a: I256, b: I256, udiv: impl Fn(U256, U256) -> (U256, U256)) -> (X, X) {
    let (q, r) = udiv(X::i(a).abs().wu(), X::i(b).abs().wu());
    let (q, r) = (X::u(q), X::u(r));
    let (na, nb) = (X::i(a).is_neg(), X::i(b).is_neg());
    (if na != nb { q.neg() } else { q }, if na { r.neg() } else { r })
}

/// Euclidean signed quotient and remainder: a = q*b + r, 0 <= r < |b|.
pub fn idiv_euclid(a: I256, b: I256) -> (X, X) {
    let e = idiv(a, b);
    euclid(e, b)
}
pub fn idiv_euclid_q(a: I256, b: I256) -> (X, X) {
    let e = idiv_q(a, b);
    euclid(e, b)
}
fn euclid((q, r): (X, X), b: I256) -> (X, X) {
    if r.is_neg() {
        let d = X::i(b);
        if d.is_neg() {
            (q.add(X::pu(1)), r.sub(d))
        } else {
            (q.sub(X::pu(1)), r.add(d))
        }
    } else {
        (q, r)
    }
}
