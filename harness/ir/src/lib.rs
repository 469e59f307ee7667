#![allow(unused_imports)]
pub use vharness::*;
