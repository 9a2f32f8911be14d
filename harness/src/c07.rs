//! C07: equality, order and hashing.

use crate::{nd, spec::*};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use ethnum::{I256, U256};

macro_rules! check_order {
    ($a:expr, $b:expr, $o:expr) => {{
        let (a, b, o) = ($a, $b, $o);
        assert!((a == b) == (o == Ordering::Equal));
        assert!((a != b) == (o != Ordering::Equal));
        assert!((a < b) == (o == Ordering::Less));
        assert!((a <= b) == (o != Ordering::Greater));
        assert!((a > b) == (o == Ordering::Greater));
        assert!((a >= b) == (o != Ordering::Less));
        assert!(a.partial_cmp(&b) == Some(o));
    }};
}

/// Records what is hashed.
struct Rec {
    buf: [u8; 64],
    len: usize,
}
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            if self.len < 64 {
                self.buf[self.len] = b[i];
            }
            self.len += 1;
            i += 1;
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn rec<T: Hash>(x: &T) -> Rec {
    let mut r = Rec { buf: [0; 64], len: 0 };
    x.hash(&mut r);
    r
}

harnesses! {
    fn c07_u_order() {
        let (a, b) = (nd::u256(), nd::u256());
        let o = X::u(a).cmp(X::u(b));
        check_order!(a, b, o);
        assert!(a.cmp(&b) == o);
    }
    fn c07_i_order() {
        let (a, b) = (nd::i256(), nd::i256());
        let o = X::i(a).cmp(X::i(b));
        check_order!(a, b, o);
        assert!(a.cmp(&b) == o);
    }
    fn c07_u_order_prim() {
        let (a, b) = (nd::u256(), nd::u128());
        let o = X::u(a).cmp(X::pu(b));
        check_order!(a, b, o);
        check_order!(b, a, o.reverse());
    }
    fn c07_i_order_prim() {
        let (a, b) = (nd::i256(), nd::i128());
        let o = X::i(a).cmp(X::pi(b));
        check_order!(a, b, o);
        check_order!(b, a, o.reverse());
    }
    fn c07_u_min_max_clamp() {
        let (a, b, c) = (nd::u256(), nd::u256(), nd::u256());
        let less = X::u(b).lt(X::u(a));
        let (lo, hi) = if less { (b, a) } else { (a, b) };
        assert!(ueq(a.min(b), lo) && ueq(a.max(b), hi));
        let e = if X::u(c).lt(X::u(lo)) { lo } else if X::u(hi).lt(X::u(c)) { hi } else { c };
        assert!(ueq(c.clamp(lo, hi), e));
    }
    fn c07_i_min_max_clamp() {
        let (a, b, c) = (nd::i256(), nd::i256(), nd::i256());
        let less = X::i(b).lt(X::i(a));
        let (lo, hi) = if less { (b, a) } else { (a, b) };
        assert!(ieq(a.min(b), lo) && ieq(a.max(b), hi));
        let e = if X::i(c).lt(X::i(lo)) { lo } else if X::i(hi).lt(X::i(c)) { hi } else { c };
        assert!(ieq(c.clamp(lo, hi), e));
    }
    fn c07_u_hash() {
        let a = nd::u256();
        let b = if nd::bool() { nd::u256() } else { a };
        nd::assume(a == b);
        let (x, y) = (rec(&a), rec(&b));
        assert!(x.len == y.len && x.len <= 64);
        let i = (nd::u8() & 63) as usize;
        assert!(x.buf[i] == y.buf[i]);
    }
    fn c07_i_hash() {
        let a = nd::i256();
        let b = if nd::bool() { nd::i256() } else { a };
        nd::assume(a == b);
        let (x, y) = (rec(&a), rec(&b));
        assert!(x.len == y.len && x.len <= 64);
        let i = (nd::u8() & 63) as usize;
        assert!(x.buf[i] == y.buf[i]);
    }
}
