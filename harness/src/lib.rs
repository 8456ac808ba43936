//! Shared monitoring framework for the aether runtime monitors.
#![feature(f128)]
#![cfg_attr(feature = "wide", feature(f16))]
#![allow(clippy::all)]
pub mod fw;
pub mod hp;
pub mod la;
#[cfg(feature = "acore")]
pub mod num;
