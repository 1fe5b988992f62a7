#![no_std]
pub use nt_hive::*;
