//! Harnesses: each `h_*` function states one property over symbolic inputs and
//! calls the real imap-codec / imap-types code.
#![allow(clippy::all)]
#![allow(dead_code)]

#[macro_export]
macro_rules! harnesses {
    ($( fn $name:ident() $body:block )*) => {
        $( #[no_mangle] pub extern "C" fn $name() $body )*
        pub fn lookup(n: &str) -> Option<extern "C" fn()> {
            match n {
                $( stringify!($name) => Some($name), )*
                _ => None,
            }
        }
    };
}

macro_rules! props {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn lookup(n: &str) -> Option<extern "C" fn()> {
            $( #[cfg(feature = $f)] if let Some(f) = $m::lookup(n) { return Some(f); } )*
            let _ = n;
            None
        }
    };
}

pub mod abnf;
pub mod corpus;
pub mod fam;
pub mod gen;
pub mod stubs;
pub mod sym;

props! {
    "c01" c01,
    "c02" c02,
    "c03" c03,
    "c04" c04,
    "c05" c05,
    "c06" c06,
    "c07" c07,
    "c08" c08,
    "c09" c09,
    "c10" c10,
    "c11" c11,
    "c12" c12,
    "c13" c13,
    "c14" c14,
    "c15" c15,
    "c16" c16,
    "c17" c17,
    "c18" c18,
    "c19" c19,
}
