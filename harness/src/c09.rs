//! C09: byte, endianness and word conversions (and the constants).

use crate::{nd, spec::*};
use ethnum::{I256, U256};

/// Byte `i` (from the least significant) of the value.
fn byte(w: (u128, u128), i: usize) -> u8 {
    if i < 16 {
        (w.1 >> (8 * i)) as u8
    } else {
        (w.0 >> (8 * (i - 16))) as u8
    }
}
fn bytes() -> [u8; 32] {
    let a = nd::u256();
    let mut b = [0; 32];
    let mut i = 0;
    while i < 32 {
        b[i] = byte(uw(a), i);
        i += 1;
    }
    b
}

macro_rules! for_type {
    ($m:ident, $T:ident, $get:ident, $w:ident, $eq:ident, $word:ty) => {
        pub mod $m {
            use super::*;
            harnesses! {
                fn c09_to_bytes() {
                    let (a, i) = (nd::$get(), (nd::u8() & 31) as usize);
                    assert!(a.to_le_bytes()[i] == byte($w(a), i));
                    assert!(a.to_ne_bytes()[i] == byte($w(a), i));
                    assert!(a.to_be_bytes()[i] == byte($w(a), 31 - i));
                }
                fn c09_from_bytes() {
                    let (b, i) = (bytes(), (nd::u8() & 31) as usize);
                    assert!(byte($w(<$T>::from_le_bytes(b)), i) == b[i]);
                    assert!(byte($w(<$T>::from_ne_bytes(b)), i) == b[i]);
                    assert!(byte($w(<$T>::from_be_bytes(b)), i) == b[31 - i]);
                }
                fn c09_round_trip() {
                    let a = nd::$get();
                    assert!($eq(<$T>::from_le_bytes(a.to_le_bytes()), a));
                    assert!($eq(<$T>::from_ne_bytes(a.to_ne_bytes()), a));
                    assert!($eq(<$T>::from_be_bytes(a.to_be_bytes()), a));
                }
                fn c09_endian() {
                    let (a, i) = (nd::$get(), (nd::u8() & 31) as usize);
                    assert!($eq(a.to_le(), a) && $eq(<$T>::from_le(a), a));
                    assert!(byte($w(a.to_be()), i) == byte($w(a), 31 - i));
                    assert!(byte($w(<$T>::from_be(a)), i) == byte($w(a), 31 - i));
                }
                fn c09_words() {
                    let (h, l) = (nd::u128() as $word, nd::u128() as $word);
                    let mut a = <$T>::from_words(h, l);
                    assert!($w(a) == (h as u128, l as u128));
                    let (x, y) = a.into_words();
                    assert!(x == h && y == l);
                    assert!(*a.high() == h && *a.low() == l);
                    let (h2, l2) = (nd::u128() as $word, nd::u128() as $word);
                    *a.high_mut() = h2;
                    assert!($w(a) == (h2 as u128, l as u128));
                    *a.low_mut() = l2;
                    assert!($w(a) == (h2 as u128, l2 as u128));
                }
            }
        }
    };
}
for_type!(u, U256, u256, uw, ueq, u128);
for_type!(i, I256, i256, iw, ieq, i128);

harnesses! {
    fn c09_constants() {
        assert!(ueq(U256::MIN, UZERO) && ueq(U256::ZERO, UZERO) && ueq(U256::MAX, UMAX));
        assert!(ueq(U256::ONE, mku(0, 1)) && U256::BITS == 256 && I256::BITS == 256);
        assert!(ieq(I256::MIN, IMIN) && ieq(I256::ZERO, IZERO) && ieq(I256::MAX, IMAX));
        assert!(ieq(I256::ONE, mki(0, 1)) && ieq(I256::MINUS_ONE, mki(!0, !0)));
        assert!(ueq(U256::default(), UZERO) && ieq(I256::default(), IZERO));
    }
}
