//! The mathematical side of the contracts: 384-bit two's complement integers,
//! wide enough for the exact result of every additive operation, written from
//! primitive 128-bit operations only (nothing of `ethnum`).

use core::cmp::Ordering;
use ethnum::{I256, U256};

#[derive(Clone, Copy, Debug)]
pub struct X {
    pub lo: u128,
    pub hi: u128,
    pub top: u128,
}

pub const fn x(top: u128, hi: u128, lo: u128) -> X {
    X { lo, hi, top }
}
const fn sx(w: u128) -> u128 {
    ((w as i128) >> 127) as u128
}
/// The words of a `U256`, without going through its API (x86-64 is little
/// endian: word 0 is the low word).
pub const fn uw(a: U256) -> (u128, u128) {
    (a.0[1], a.0[0])
}
pub const fn iw(a: I256) -> (u128, u128) {
    (a.0[1] as u128, a.0[0] as u128)
}
pub const fn mku(hi: u128, lo: u128) -> U256 {
    U256([lo, hi])
}
pub const fn mki(hi: u128, lo: u128) -> I256 {
    I256([lo as i128, hi as i128])
}
pub fn ueq(a: U256, b: U256) -> bool {
    a.0[0] == b.0[0] && a.0[1] == b.0[1]
}
pub fn ieq(a: I256, b: I256) -> bool {
    a.0[0] == b.0[0] && a.0[1] == b.0[1]
}
pub fn oueq(a: Option<U256>, b: Option<U256>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => ueq(a, b),
        (None, None) => true,
        _ => false,
    }
}
pub fn oieq(a: Option<I256>, b: Option<I256>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => ieq(a, b),
        (None, None) => true,
        _ => false,
    }
}
pub const UMAX: U256 = mku(u128::MAX, u128::MAX);
pub const UZERO: U256 = mku(0, 0);
pub const IMAX: I256 = mki(u128::MAX >> 1, u128::MAX);
pub const IMIN: I256 = mki(1 << 127, 0);
pub const IZERO: I256 = mki(0, 0);

impl X {
    pub const fn u(a: U256) -> X {
        x(0, a.0[1], a.0[0])
    }
    pub const fn i(a: I256) -> X {
        x(sx(a.0[1] as u128), a.0[1] as u128, a.0[0] as u128)
    }
    pub const fn pu(a: u128) -> X {
        x(0, 0, a)
    }
    pub const fn pi(a: i128) -> X {
        x(sx(a as u128), sx(a as u128), a as u128)
    }
    pub const fn add(self, b: X) -> X {
        let (lo, c) = self.lo.overflowing_add(b.lo);
        let (h, c1) = self.hi.overflowing_add(b.hi);
        let (hi, c2) = h.overflowing_add(c as u128);
        let top = self.top.wrapping_add(b.top).wrapping_add((c1 | c2) as u128);
        x(top, hi, lo)
    }
    pub const fn not(self) -> X {
        x(!self.top, !self.hi, !self.lo)
    }
    pub const fn neg(self) -> X {
        self.not().add(x(0, 0, 1))
    }
    pub const fn sub(self, b: X) -> X {
        self.add(b.neg())
    }
    pub const fn is_neg(self) -> bool {
        (self.top as i128) < 0
    }
    pub const fn is_zero(self) -> bool {
        self.top == 0 && self.hi == 0 && self.lo == 0
    }
    pub const fn abs(self) -> X {
        if self.is_neg() {
            self.neg()
        } else {
            self
        }
    }
    pub const fn fits_u(self) -> bool {
        self.top == 0
    }
    pub const fn fits_i(self) -> bool {
        self.top == sx(self.hi)
    }
    pub const fn wu(self) -> U256 {
        mku(self.hi, self.lo)
    }
    pub const fn wi(self) -> I256 {
        mki(self.hi, self.lo)
    }
    pub const fn sat_u(self) -> U256 {
        if self.fits_u() {
            self.wu()
        } else if self.is_neg() {
            UZERO
        } else {
            UMAX
        }
    }
    pub const fn sat_i(self) -> I256 {
        if self.fits_i() {
            self.wi()
        } else if self.is_neg() {
            IMIN
        } else {
            IMAX
        }
    }
    pub const fn opt_u(self) -> Option<U256> {
        if self.fits_u() {
            Some(self.wu())
        } else {
            None
        }
    }
    pub const fn opt_i(self) -> Option<I256> {
        if self.fits_i() {
            Some(self.wi())
        } else {
            None
        }
    }
    pub fn eq(self, b: X) -> bool {
        self.top == b.top && self.hi == b.hi && self.lo == b.lo
    }
    pub fn lt(self, b: X) -> bool {
        self.sub(b).is_neg()
    }
    pub fn cmp(self, b: X) -> Ordering {
        let d = self.sub(b);
        if d.is_zero() {
            Ordering::Equal
        } else if d.is_neg() {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
}

/// Bit `i` of a 256-bit word pair.
pub const fn bit(w: (u128, u128), i: u32) -> bool {
    if i < 128 {
        (w.1 >> i) & 1 == 1
    } else {
        (w.0 >> (i - 128)) & 1 == 1
    }
}

/// Left, logical right and arithmetic right shift by n < 256.
pub const fn wshl(w: (u128, u128), n: u32) -> (u128, u128) {
    if n == 0 {
        w
    } else if n < 128 {
        (w.0 << n | w.1 >> (128 - n), w.1 << n)
    } else {
        (w.1 << (n - 128), 0)
    }
}
pub const fn wshr(w: (u128, u128), n: u32) -> (u128, u128) {
    if n == 0 {
        w
    } else if n < 128 {
        (w.0 >> n, w.1 >> n | w.0 << (128 - n))
    } else {
        (0, w.0 >> (n - 128))
    }
}
pub const fn wsar(w: (u128, u128), n: u32) -> (u128, u128) {
    let (h, l) = wshr(w, n);
    if (w.0 as i128) < 0 && n > 0 {
        // the n high bits become one
        if n <= 128 {
            (h | (u128::MAX << (128 - n)), l)
        } else {
            (u128::MAX, l | (u128::MAX << (256 - n)))
        }
    } else {
        (h, l)
    }
}
pub const fn ushl(a: U256, n: u32) -> U256 {
    let (h, l) = wshl(uw(a), n);
    mku(h, l)
}
pub const fn ushr(a: U256, n: u32) -> U256 {
    let (h, l) = wshr(uw(a), n);
    mku(h, l)
}
pub const fn ishl(a: I256, n: u32) -> I256 {
    let (h, l) = wshl(iw(a), n);
    mki(h, l)
}
pub const fn isar(a: I256, n: u32) -> I256 {
    let (h, l) = wsar(iw(a), n);
    mki(h, l)
}
