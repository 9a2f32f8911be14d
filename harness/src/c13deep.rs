//! Binary formatting of every value (thorough tier only).

use crate::c13::digits::*;
use crate::{nd, spec::*};
use core::fmt;

c13_radix! {
    c13_k_u_bin, c13_k_i_bin, c13_k_m_bin, "{:b}", "{:-b}", 1, 258, false, "0b";
}
