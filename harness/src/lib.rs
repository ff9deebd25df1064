//! Harnesses run by the symbolic executor.
//!
//! Every entry point uses only the public interface of `gift`, and compares
//! what it does with the reference models in `refm`.
pub mod blocks;
pub mod io;
pub mod items;
pub mod stepw;
pub mod compose;
pub mod refr;
pub mod gifw;
pub mod refm;
pub mod sym;

#[cfg(feature = "command")]
pub mod cmd;
#[cfg(all(feature = "command", feature = "ir"))]
pub mod os;

macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $(
            #[cfg(feature = $f)]
            pub mod $m;
        )*
        /// Find an entry point
        pub fn find(name: &str) -> Option<extern "C-unwind" fn()> {
            $(
                #[cfg(feature = $f)]
                for (n, f) in $m::ENTRIES {
                    if *n == name {
                        return Some(*f);
                    }
                }
            )*
            let _ = name;
            None
        }
    };
}

modules!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28", c29 "c29", c30 "c30", val "val");
