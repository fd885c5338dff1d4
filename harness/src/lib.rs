#![allow(unexpected_cfgs)]
#[macro_use]
pub mod rt;
pub mod refs;
pub mod ways;
pub mod wire;
pub mod behave;
pub mod convert;
pub mod equal;
pub mod receive;
pub mod sets;
