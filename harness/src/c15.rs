//! C15: byte serialization.

use crate::{nd, sink::*, spec::*};
use ethnum::{serde as es, I256, U256};

fn be(w: (u128, u128)) -> [u8; 32] {
    let mut r = [0; 32];
    let mut k = 0;
    while k < 16 {
        r[k] = (w.0 >> (8 * (15 - k))) as u8;
        r[16 + k] = (w.1 >> (8 * (15 - k))) as u8;
        k += 1;
    }
    r
}
fn words(r: &[u8; 32]) -> (u128, u128) {
    let mut w = (0, 0);
    let mut k = 0;
    while k < 16 {
        w.0 = w.0 << 8 | r[k] as u128;
        w.1 = w.1 << 8 | r[16 + k] as u128;
        k += 1;
    }
    w
}
/// Byte `k` counted from the most significant.
fn at(w: (u128, u128), k: usize) -> u8 {
    if k < 16 {
        (w.0 >> (8 * (15 - k))) as u8
    } else {
        (w.1 >> (8 * (31 - k))) as u8
    }
}
/// The least number of bytes that denote the value.
fn least_u(w: (u128, u128)) -> usize {
    let z = if w.0 != 0 { w.0.leading_zeros() } else { 128 + w.1.leading_zeros() };
    32 - z as usize / 8
}
fn least_i(w: (u128, u128)) -> usize {
    if w == (0, 0) {
        return 0;
    }
    // bits without the sign, plus one
    let m = if (w.0 as i128) < 0 { (!w.0, !w.1) } else { w };
    let z = if m.0 != 0 { m.0.leading_zeros() } else { 128 + m.1.leading_zeros() };
    (256 - z as usize + 1 + 7) / 8
}
fn any_bytes() -> [u8; 32] {
    be((nd::u128(), nd::u128()))
}

macro_rules! form {
    ($ser:path, $cser:path, $le:expr) => {
        use super::*;
        fn order(k: usize, n: usize) -> usize {
            if $le { n - 1 - k } else { k }
        }
        fn full(o: &Out, w: (u128, u128)) {
            assert!(!o.text && o.n == 32);
            let k = nd::below(32) as usize;
            assert!(o.b[k] == at(w, order(k, 32)));
        }
        fn compressed(o: &Out, w: (u128, u128), least: usize) {
            assert!(!o.text && o.n == least);
            let k = nd::below(32) as usize;
            if k < o.n {
                // the n least significant bytes
                assert!(o.b[k] == at(w, 32 - o.n + order(k, o.n)));
            }
        }
        harnesses! {
            fn c15_u_ser() {
                let v = nd::u256();
                full(&$ser(&v, Sink).unwrap(), uw(v));
            }
            fn c15_i_ser() {
                let v = nd::i256();
                full(&$ser(&v, Sink).unwrap(), iw(v));
            }
            fn c15_cu_ser() {
                let v = nd::u256();
                compressed(&$cser(&v, Sink).unwrap(), uw(v), least_u(uw(v)));
            }
            fn c15_ci_ser() {
                let v = nd::i256();
                compressed(&$cser(&v, Sink).unwrap(), iw(v), least_i(iw(v)));
            }
        }
    };
}
macro_rules! de {
    ($de:path, $cde:path, $seq:meta) => {
        pub mod by {
            use super::*;
            harnesses! {
                #[kani::unwind(34)]
                fn c15_u_de_b() {
                    let b = any_bytes();
                    let c = Content::Bytes(&b);
                    let v: U256 = $de(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    assert!(b[k] == at(uw(v), order(k, 32)));
                }
                /// The n bytes denote the value they are the digits of.
                #[kani::unwind(34)]
                fn c15_cu_de_b() {
                    let b = any_bytes();
                    let n = nd::below(33) as usize;
                    let c = Content::Bytes(&b[..n]);
                    let v: U256 = $cde(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    let s = 0;
                    let e = if k < 32 - n { s } else { b[order(k - (32 - n), n)] };
                    assert!(at(uw(v), k) == e);
                }
                /// Every length up to 36 except 32.
                #[kani::unwind(34)]
                fn c15_u_len_b() {
                    let b = [nd::u8(); 36];
                    let n = nd::below(37) as usize;
                    nd::assume(n != 32);
                    let c = Content::Bytes(&b[..n]);
                    let r: Result<U256, Bad> = $de(Source(c));
                    assert!(r.is_err());
                }
                #[kani::unwind(34)]
                fn c15_cu_len_b() {
                    let b = [nd::u8(); 36];
                    let n = 33 + nd::below(4) as usize;
                    let c = Content::Bytes(&b[..n]);
                    let r: Result<U256, Bad> = $cde(Source(c));
                    assert!(r.is_err());
                }
                #[kani::unwind(34)]
                fn c15_i_de_b() {
                    let b = any_bytes();
                    let c = Content::Bytes(&b);
                    let v: I256 = $de(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    assert!(b[k] == at(iw(v), order(k, 32)));
                }
                /// The n bytes denote the value they are the digits of.
                #[kani::unwind(34)]
                fn c15_ci_de_b() {
                    let b = any_bytes();
                    let n = nd::below(33) as usize;
                    let c = Content::Bytes(&b[..n]);
                    let v: I256 = $cde(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    let s = if n > 0 && b[order(0, n)] >> 7 == 1 { 0xff } else { 0 };
                    let e = if k < 32 - n { s } else { b[order(k - (32 - n), n)] };
                    assert!(at(iw(v), k) == e);
                }
                /// Every length up to 36 except 32.
                #[kani::unwind(34)]
                fn c15_i_len_b() {
                    let b = [nd::u8(); 36];
                    let n = nd::below(37) as usize;
                    nd::assume(n != 32);
                    let c = Content::Bytes(&b[..n]);
                    let r: Result<I256, Bad> = $de(Source(c));
                    assert!(r.is_err());
                }
                #[kani::unwind(34)]
                fn c15_ci_len_b() {
                    let b = [nd::u8(); 36];
                    let n = 33 + nd::below(4) as usize;
                    let c = Content::Bytes(&b[..n]);
                    let r: Result<I256, Bad> = $cde(Source(c));
                    assert!(r.is_err());
                }
            }
        }
        #[cfg($seq)]
        pub mod sq {
            use super::*;
            harnesses! {
                #[kani::unwind(34)]
                fn c15_u_de_s() {
                    let b = any_bytes();
                    let c = Content::Seq(&b, nd::bool());
                    let v: U256 = $de(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    assert!(b[k] == at(uw(v), order(k, 32)));
                }
                /// The n bytes denote the value they are the digits of.
                #[kani::unwind(34)]
                fn c15_cu_de_s() {
                    let b = any_bytes();
                    let n = nd::below(33) as usize;
                    let c = Content::Seq(&b[..n], nd::bool());
                    let v: U256 = $cde(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    let s = 0;
                    let e = if k < 32 - n { s } else { b[order(k - (32 - n), n)] };
                    assert!(at(uw(v), k) == e);
                }
                /// Every length up to 36 except 32.
                #[kani::unwind(34)]
                fn c15_u_len_s() {
                    let b = [nd::u8(); 36];
                    let n = nd::below(37) as usize;
                    nd::assume(n != 32);
                    let c = Content::Seq(&b[..n], nd::bool());
                    let r: Result<U256, Bad> = $de(Source(c));
                    assert!(r.is_err());
                }
                #[kani::unwind(34)]
                fn c15_cu_len_s() {
                    let b = [nd::u8(); 36];
                    let n = 33 + nd::below(4) as usize;
                    let c = Content::Seq(&b[..n], nd::bool());
                    let r: Result<U256, Bad> = $cde(Source(c));
                    assert!(r.is_err());
                }
                #[kani::unwind(34)]
                fn c15_i_de_s() {
                    let b = any_bytes();
                    let c = Content::Seq(&b, nd::bool());
                    let v: I256 = $de(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    assert!(b[k] == at(iw(v), order(k, 32)));
                }
                /// The n bytes denote the value they are the digits of.
                #[kani::unwind(34)]
                fn c15_ci_de_s() {
                    let b = any_bytes();
                    let n = nd::below(33) as usize;
                    let c = Content::Seq(&b[..n], nd::bool());
                    let v: I256 = $cde(Source(c)).unwrap();
                    let k = nd::below(32) as usize;
                    let s = if n > 0 && b[order(0, n)] >> 7 == 1 { 0xff } else { 0 };
                    let e = if k < 32 - n { s } else { b[order(k - (32 - n), n)] };
                    assert!(at(iw(v), k) == e);
                }
                /// Every length up to 36 except 32.
                #[kani::unwind(34)]
                fn c15_i_len_s() {
                    let b = [nd::u8(); 36];
                    let n = nd::below(37) as usize;
                    nd::assume(n != 32);
                    let c = Content::Seq(&b[..n], nd::bool());
                    let r: Result<I256, Bad> = $de(Source(c));
                    assert!(r.is_err());
                }
                #[kani::unwind(34)]
                fn c15_ci_len_s() {
                    let b = [nd::u8(); 36];
                    let n = 33 + nd::below(4) as usize;
                    let c = Content::Seq(&b[..n], nd::bool());
                    let r: Result<I256, Bad> = $cde(Source(c));
                    assert!(r.is_err());
                }
            }
        }
    };
}
pub mod le {
    form!(es::bytes::le::serialize, es::compressed_bytes::le::serialize, true);
    de!(es::bytes::le::deserialize, es::compressed_bytes::le::deserialize, all());
}
pub mod be_ {
    form!(es::bytes::be::serialize, es::compressed_bytes::be::serialize, false);
    de!(es::bytes::be::deserialize, es::compressed_bytes::be::deserialize, all());
}
pub mod ne {
    form!(es::bytes::ne::serialize, es::compressed_bytes::ne::serialize, true);
    // the same functions as in `le`
    de!(es::bytes::ne::deserialize, es::compressed_bytes::ne::deserialize, not(kani));
}
harnesses! {
    /// What was serialized deserializes to the value (from the contracts of
    /// both directions; here end to end).
    #[kani::unwind(34)]
    fn c15_round() {
        let v = nd::i256();
        let u = v.as_u256();
        macro_rules! rt {
            ($s:path, $d:path) => {{
                let o = $s(&u, Sink).unwrap();
                let r: U256 = $d(Source(Content::Bytes(o.get()))).unwrap();
                assert!(ueq(r, u));
                let o = $s(&v, Sink).unwrap();
                let r: I256 = $d(Source(Content::Bytes(o.get()))).unwrap();
                assert!(ieq(r, v));
            }};
        }
        rt!(es::bytes::le::serialize, es::bytes::le::deserialize);
        rt!(es::bytes::be::serialize, es::bytes::be::deserialize);
        rt!(es::compressed_bytes::le::serialize, es::compressed_bytes::le::deserialize);
        rt!(es::compressed_bytes::be::serialize, es::compressed_bytes::be::deserialize);
    }
}
