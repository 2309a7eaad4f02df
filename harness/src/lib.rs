//! Verification harnesses. Each harness calls the real code of /repo with
//! symbolic inputs and states the property as assertions; `rsym` decides them.
#![allow(dead_code, clippy::all)]

#[macro_use]
pub mod vp;

pub mod pieces;
#[cfg(feature = "f_bencode")]
pub mod bspec;
#[cfg(feature = "f_bencode")]
pub mod h_bencode;
#[cfg(feature = "f_common")]
pub mod h_common;
#[cfg(feature = "f_dht")]
pub mod h_dht;
#[cfg(feature = "f_root")]
pub mod h_root;

pub fn table() -> Vec<(&'static str, extern "C" fn())> {
    #[allow(unused_mut)]
    let mut v = vec![];
    #[cfg(feature = "f_bencode")]
    v.extend_from_slice(h_bencode::TABLE);
    #[cfg(feature = "f_common")]
    v.extend_from_slice(h_common::TABLE);
    #[cfg(feature = "f_dht")]
    v.extend_from_slice(h_dht::TABLE);
    #[cfg(feature = "f_root")]
    v.extend_from_slice(h_root::TABLE);
    v
}
