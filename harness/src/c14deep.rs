//! The forms that serialize like another one (thorough tier only).

use crate::c13::digits::*;
use crate::c14::k::*;
use crate::{nd, sink::*, spec::*};
use ethnum::{serde as es, I256, U256};

c14_handed! {
    c14_k_u_ser_pre, u256, u, es::prefixed::serialize;
    c14_k_i_ser_pre, i256, i, es::prefixed::serialize;
    c14_k_u_ser_per, u256, u, es::permissive::serialize;
    c14_k_i_ser_per, i256, i, es::permissive::serialize;
}
