//! Verification harnesses for fundsp.
#![allow(unused_imports, dead_code, clippy::all)]
pub mod cmath;
pub mod prim;
pub use prim::*;
pub mod probe;

/// Defines harness functions `h_<prefix>_<name>` and their replay list.
#[macro_export]
macro_rules! harnesses {
    ($prefix:literal; $($name:ident : $body:expr;)*) => {
        mod hs {
            $( pub mod $name {
                #[allow(unused_imports)]
                use super::super::*;
                #[inline(never)] pub fn run() { $body }
            } )*
        }
        pub const LIST: &[(&str, fn())] = &[ $((concat!($prefix, "_", stringify!($name)), hs::$name::run as fn())),* ];
        #[cfg(vp_ir)]
        mod ex {
            $( #[export_name = concat!("h_", $prefix, "_", stringify!($name))] pub extern "C" fn $name() { super::hs::$name::run() } )*
        }
    };
}

/// One harness per unit of the catalogue, calling `body` of the invoking module with its spec.
#[macro_export]
macro_rules! unit_harnesses {
    ($prefix:literal; $($name:ident : $e:expr, $ins:expr, $tol:expr;)*) => {
        harnesses! { $prefix; $( $name : {
            fn make() -> Box<dyn AudioUnit> { Box::new($e) }
            const INS: &[R] = $ins;
            body($crate::units::Spec { name: stringify!($name), unit: make(), make, ins: INS, tol: $tol })
        }; )* }
    };
}
#[cfg(feature = "units")]
#[macro_use]
pub mod units;
pub mod util;
#[macro_use]
pub mod refexpr;
pub mod netmodel;
pub mod seqmodel;

macro_rules! modules {
    ($($f:literal $m:ident),* $(,)?) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn list() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = vec![];
            $( #[cfg(feature = $f)] v.extend_from_slice($m::LIST); )*
            v
        }
    };
}
modules!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25);
