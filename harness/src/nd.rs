//! Nondeterministic inputs.
//!
//! Under Kani every draw is an unconstrained symbolic value, so a harness is a
//! contract over the full domain.  Natively the same harness draws from a
//! recorded counterexample (replay) or from a boundary-biased generator
//! (vacuity guard, and search for a failing input).

use ethnum::{I256, U256};

#[cfg(kani)]
mod imp {
    pub fn u128() -> u128 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn shift() -> u32 {
        kani::any()
    }
    pub fn amount() -> u128 {
        kani::any()
    }
    pub fn exponent(bits: u32) -> u32 {
        let x: u32 = kani::any();
        x & ((1 << bits) - 1)
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn divwords() -> [u128; 4] {
        [kani::any(), kani::any(), kani::any(), kani::any()]
    }
    /// `f` must panic.
    pub fn must_panic<R>(f: impl FnOnce() -> R) {
        let _ = f();
        // Reaching this point is a failure that is *not* a panic, so that it
        // also fails a `should_panic` harness.
        unsafe { core::hint::assert_unchecked(false) };
    }
    pub fn below(n: u32) -> u32 {
        let x: u32 = kani::any();
        kani::assume(x < n);
        x
    }
}

#[cfg(not(kani))]
pub mod imp {
    use std::cell::RefCell;
    use std::panic::{catch_unwind, AssertUnwindSafe};

    pub struct Discard;

    pub struct Src {
        rng: u64,
        replay: Option<Vec<u128>>,
        pub draws: Vec<u128>,
    }

    thread_local! {
        pub static SRC: RefCell<Src> = const {
            RefCell::new(Src { rng: 0, replay: None, draws: Vec::new() })
        };
    }

    impl Src {
        fn next(&mut self) -> u64 {
            // splitmix64
            self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        }
        fn half(&mut self) -> u64 {
            match self.next() % 10 {
                0 | 1 => 0,
                2 | 3 => u64::MAX,
                4 => 1,
                5 => 1 << 63,
                6 => 1 << (self.next() % 64),
                7 => u64::MAX - self.next() % 3,
                _ => self.next(),
            }
        }
        fn word(&mut self, bits: u32) -> u128 {
            let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
            let x = match self.next() % 16 {
                0 | 1 => (self.next() % 4) as u128,
                2 => mask - (self.next() % 4) as u128,
                3 => 1 << (self.next() % bits as u64),
                4 => (1u128 << (self.next() % bits as u64)).wrapping_sub(1),
                5 => (1u128 << (self.next() % bits as u64)).wrapping_add(1),
                6 => u128::MAX << (self.next() % bits as u64),
                // boundaries of the sign bit
                7 => (1u128 << (bits - 1)).wrapping_add((self.next() % 5) as u128).wrapping_sub(2),
                8 | 9 | 10 => ((self.half() as u128) << 64) | self.half() as u128,
                11 | 12 if !self.draws.is_empty() => {
                    // close to something drawn before
                    let i = self.next() as usize % self.draws.len();
                    let d = (self.next() % 3) as u128;
                    let x = self.draws[i].wrapping_add(d).wrapping_sub(1);
                    if self.next() % 4 == 0 {
                        !x
                    } else {
                        x
                    }
                }
                13 => {
                    let r = ((self.next() as u128) << 64) | self.next() as u128;
                    r & (u128::MAX >> (self.next() % 128))
                }
                _ => ((self.next() as u128) << 64) | self.next() as u128,
            };
            x & mask
        }
        pub fn draw(&mut self, bits: u32) -> u128 {
            let x = match &mut self.replay {
                Some(r) => {
                    if r.is_empty() {
                        0
                    } else {
                        r.remove(0)
                    }
                }
                None => self.word(bits),
            };
            self.draws.push(x);
            x
        }
    }

    pub fn seed(s: u64) {
        SRC.with(|r| {
            *r.borrow_mut() = Src { rng: s.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ 0x5151, replay: None, draws: vec![] }
        })
    }
    pub fn replay(v: Vec<u128>) {
        SRC.with(|r| *r.borrow_mut() = Src { rng: 0, replay: Some(v), draws: vec![] })
    }
    pub fn draws() -> Vec<u128> {
        SRC.with(|r| r.borrow().draws.clone())
    }
    fn draw(bits: u32) -> u128 {
        SRC.with(|r| r.borrow_mut().draw(bits))
    }
    pub fn u128() -> u128 {
        draw(128)
    }
    pub fn u64() -> u64 {
        draw(64) as _
    }
    pub fn u32() -> u32 {
        draw(32) as _
    }
    pub fn u16() -> u16 {
        draw(16) as _
    }
    pub fn u8() -> u8 {
        draw(8) as _
    }
    /// A shift amount: any `u32`, mostly near the interesting range.
    pub fn shift() -> u32 {
        SRC.with(|r| {
            let mut s = r.borrow_mut();
            if s.replay.is_some() {
                return s.draw(32) as u32;
            }
            let x = match s.next() % 8 {
                0 => s.next() as u32,
                1 => 256u32.wrapping_add((s.next() % 5) as u32).wrapping_sub(2),
                2 => 128u32.wrapping_add((s.next() % 5) as u32).wrapping_sub(2),
                3 => (s.next() % 600) as u32,
                4 => u32::MAX - (s.next() % 300) as u32,
                _ => (s.next() % 256) as u32,
            };
            s.draws.push(x as u128);
            x
        })
    }
    /// A shift amount of any width.
    pub fn amount() -> u128 {
        SRC.with(|r| {
            let mut s = r.borrow_mut();
            if s.replay.is_some() {
                return s.draw(128);
            }
            let x = match s.next() % 8 {
                0 => s.word(128),
                1 => 256 + (s.next() % 5) as u128 - 2,
                2 => 128 + (s.next() % 5) as u128 - 2,
                3 => (s.next() % 256) as u128 + (s.next() as u128) * 256,
                4 => !0 - (s.next() % 300) as u128,
                _ => (s.next() % 256) as u128,
            };
            s.draws.push(x);
            x
        })
    }
    /// A float exponent, mostly where the value is near a 256-bit integer.
    pub fn exponent(bits: u32) -> u32 {
        SRC.with(|r| {
            let mut s = r.borrow_mut();
            let top = (1u32 << bits) - 1;
            if s.replay.is_some() {
                return s.draw(32) as u32 & top;
            }
            let x = match s.next() % 8 {
                0 => s.next() as u32,
                1 => top,
                2 => (s.next() % 2) as u32,
                3 => top / 2 + 252 + (s.next() % 6) as u32,
                4 => (top / 2 + (s.next() % 4) as u32).wrapping_sub(2),
                _ => top / 2 + (s.next() % 256) as u32,
            } & top;
            s.draws.push(x as u128);
            x
        })
    }
    /// Dividend and divisor words; often a multiple of the divisor, plus or
    /// minus a little, with quotient digits at their bounds.
    pub fn divwords() -> [u128; 4] {
        let (a0, a1, b0, b1) = (u128(), u128(), u128(), u128());
        let mut w = [a0, a1, b0, b1];
        SRC.with(|r| {
            let mut s = r.borrow_mut();
            if s.replay.is_some() {
                return;
            }
            match s.next() % 8 {
                0 => w[3] = 0,
                1 => (w[3], w[2]) = (0, w[2] & u64::MAX as u128),
                2 => w[3] >>= s.next() % 128,
                _ => {}
            }
            if s.next() % 4 == 0 {
                w[3] |= 1 << 127;
            }
            if s.next() % 2 == 0 {
                // a = q * b + r
                let q = if w[3] == 0 {
                    ethnum::U256([w[0], if s.next() % 2 == 0 { 0 } else { w[1] }])
                } else {
                    ethnum::U256([w[0] >> (w[3].ilog2().saturating_sub((s.next() % 3) as u32)), 0])
                };
                let (lo, _) = crate::arith::umul(q, ethnum::U256([w[2], w[3]]));
                let r = match s.next() % 4 {
                    0 => (0, 0),
                    1 => (1, 0),
                    2 => (!0, !0),
                    _ => {
                        let (l, c) = w[2].overflowing_sub(1);
                        (l, w[3].wrapping_sub(c as u128))
                    }
                };
                let (l, c) = lo.0[0].overflowing_add(r.0);
                w[0] = l;
                w[1] = lo.0[1].wrapping_add(r.1).wrapping_add(c as u128);
            }
            let n = s.draws.len();
            s.draws[n - 4..].copy_from_slice(&w);
        });
        w
    }
    /// A random source for generators of structured inputs (texts).
    pub struct Rng<'a>(&'a mut Src);
    impl Rng<'_> {
        pub fn n(&mut self, n: u64) -> u64 {
            self.0.next() % n
        }
        pub fn chance(&mut self, n: u64) -> bool {
            self.0.next() % n == 0
        }
        pub fn word(&mut self) -> u128 {
            self.0.word(128)
        }
        pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
            v[(self.0.next() % v.len() as u64) as usize]
        }
    }
    /// A byte string: its length, then its bytes, 16 to a draw.
    pub fn text(gen: impl FnOnce(&mut Rng) -> Vec<u8>) -> Vec<u8> {
        SRC.with(|r| {
            let mut s = r.borrow_mut();
            if s.replay.is_some() {
                let n = (s.draw(32) as usize).min(4096);
                let mut v = vec![];
                while v.len() < n {
                    v.extend_from_slice(&s.draw(128).to_le_bytes());
                }
                v.truncate(n);
                return v;
            }
            let v = gen(&mut Rng(&mut s));
            s.draws.push(v.len() as u128);
            for c in v.chunks(16) {
                let mut w = [0; 16];
                w[..c.len()].copy_from_slice(c);
                s.draws.push(u128::from_le_bytes(w));
            }
            v
        })
    }
    pub fn below(n: u32) -> u32 {
        SRC.with(|r| {
            let mut s = r.borrow_mut();
            if s.replay.is_some() {
                return s.draw(32) as u32 % n;
            }
            let x = s.next() as u32 % n;
            s.draws.push(x as u128);
            x
        })
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Discard)
        }
    }
    pub fn must_panic<R>(f: impl FnOnce() -> R) {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(_) => panic!("expected a panic, but the call returned"),
            Err(e) if e.is::<Discard>() => std::panic::panic_any(Discard),
            Err(_) => {}
        }
    }
}

pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}
pub fn u256() -> U256 {
    let lo = u128();
    let hi = u128();
    U256([lo, hi])
}
/// Dividend and divisor.
pub fn divpair() -> (U256, U256) {
    let w = divwords();
    (U256([w[0], w[1]]), U256([w[2], w[3]]))
}
pub fn i256() -> I256 {
    let lo = u128();
    let hi = u128();
    I256([lo as i128, hi as i128])
}
pub fn i128() -> i128 {
    u128() as i128
}

/// A 256-bit shift amount (low word first).
pub fn amount256() -> U256 {
    let lo = amount();
    let k = u8();
    let hi = if k < 160 { 0 } else { u128() };
    U256([lo, hi])
}
