//! C08: integer conversions.

use crate::{nd, spec::*};
use core::convert::{TryFrom, TryInto};
use ethnum::{AsI256, AsU256, I256, U256};

/// A primitive as a mathematical integer.
macro_rules! val {
    (u, $p:expr) => { X::pu($p as u128) };
    (i, $p:expr) => { X::pi($p as i128) };
}

/// `as`, From/TryFrom into the 256-bit types, and back.
macro_rules! prim {
    ($($t:ident $s:ident $into_u:ident $into_i:ident),* $(,)?) => {
        $(pub mod $t {
            use super::*;
            harnesses! {
                fn c08_into() {
                    let p = nd::u128() as $t;
                    let v = val!($s, p);
                    assert!(ueq(p.as_u256(), v.wu()));
                    assert!(ieq(p.as_i256(), v.wi()));
                    prim!(@$into_u U256 ueq p v opt_u);
                    prim!(@$into_i I256 ieq p v opt_i);
                }
                fn c08_from_u() {
                    let a = nd::u256();
                    let v = X::u(a);
                    // the candidate: low bits
                    let c = a.0[0] as $t;
                    let fits = val!($s, c).eq(v);
                    let r: Result<$t, _> = <$t>::try_from(a);
                    assert!(match r { Ok(x) => fits && x == c, Err(_) => !fits });
                }
                fn c08_from_i() {
                    let a = nd::i256();
                    let v = X::i(a);
                    let c = a.0[0] as $t;
                    let fits = val!($s, c).eq(v);
                    let r: Result<$t, _> = <$t>::try_from(a);
                    assert!(match r { Ok(x) => fits && x == c, Err(_) => !fits });
                }
            }
        })*
        #[cfg(not(kani))]
        pub fn prim_registry() -> Vec<(String, fn())> {
            let mut v: Vec<(String, fn())> = vec![];
            $(for (n, f) in $t::REG { v.push((format!("{}_{}", n, stringify!($t)), *f)); })*
            v
        }
    };
    (@from $T:ident $eq:ident $p:ident $v:ident $opt:ident) => {
        assert!($eq(<$T>::from($p), $v.$opt().unwrap()));
    };
    (@try $T:ident $eq:ident $p:ident $v:ident $opt:ident) => {
        match (<$T>::try_from($p), $v.$opt()) {
            (Ok(a), Some(b)) => assert!($eq(a, b)),
            (Err(_), None) => {}
            _ => panic!("try_from"),
        }
    };
    (@as $T:ident $eq:ident $p:ident $v:ident $opt:ident) => {};
}
prim! {
    i8 i try from, i16 i try from, i32 i try from, i64 i try from, i128 i try from, isize i try as,
    u8 u from from, u16 u from from, u32 u from from, u64 u from from, u128 u from from, usize u try as,
}

harnesses! {
    fn c08_bool() {
        let b = nd::bool();
        let e = b as u128;
        assert!(ueq(U256::from(b), mku(0, e)) && ueq(b.as_u256(), mku(0, e)));
        assert!(ieq(I256::from(b), mki(0, e)) && ieq(b.as_i256(), mki(0, e)));
    }
    fn c08_new() {
        let p = nd::u128();
        assert!(ueq(U256::new(p), mku(0, p)));
        assert!(ieq(I256::new(p as i128), X::pi(p as i128).wi()));
    }
    fn c08_between() {
        let a = nd::u256();
        assert!(ieq(a.as_i256(), mki(a.0[1], a.0[0])) && ieq(AsI256::as_i256(a), mki(a.0[1], a.0[0])));
        assert!(ueq(AsU256::as_u256(a), a));
        match I256::try_from(a) {
            Ok(r) => assert!(X::u(a).fits_i() && X::i(r).eq(X::u(a))),
            Err(_) => assert!(!X::u(a).fits_i()),
        }
        let b = nd::i256();
        assert!(ueq(b.as_u256(), mku(iw(b).0, iw(b).1)) && ueq(AsU256::as_u256(b), b.as_u256()));
        assert!(ieq(AsI256::as_i256(b), b));
        match U256::try_from(b) {
            Ok(r) => assert!(X::i(b).fits_u() && X::u(r).eq(X::i(b))),
            Err(_) => assert!(!X::i(b).fits_u()),
        }
    }
    fn c08_u_as() {
        let a = nd::u256();
        let l = a.0[0];
        assert!(a.as_i8() == l as i8 && a.as_i16() == l as i16 && a.as_i32() == l as i32);
        assert!(a.as_i64() == l as i64 && a.as_i128() == l as i128 && a.as_isize() == l as isize);
        assert!(a.as_u8() == l as u8 && a.as_u16() == l as u16 && a.as_u32() == l as u32);
        assert!(a.as_u64() == l as u64 && a.as_u128() == l && a.as_usize() == l as usize);
    }
    fn c08_i_as() {
        let a = nd::i256();
        let l = a.0[0] as u128;
        assert!(a.as_i8() == l as i8 && a.as_i16() == l as i16 && a.as_i32() == l as i32);
        assert!(a.as_i64() == l as i64 && a.as_i128() == l as i128 && a.as_isize() == l as isize);
        assert!(a.as_u8() == l as u8 && a.as_u16() == l as u16 && a.as_u32() == l as u32);
        assert!(a.as_u64() == l as u64 && a.as_u128() == l && a.as_usize() == l as usize);
    }
}
