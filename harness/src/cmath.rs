//! The C math functions that `std` calls, from the libm crate fundsp itself uses, so that the
//! encoded code and the native replay share one definition.
macro_rules! m1 { ($($n:ident $t:ty),*) => { $( #[no_mangle] pub extern "C" fn $n(x: $t) -> $t { libm::$n(x) } )* } }
macro_rules! m2 { ($($n:ident $t:ty),*) => { $( #[no_mangle] pub extern "C" fn $n(x: $t, y: $t) -> $t { libm::$n(x, y) } )* } }
m1!(tanf f32, tan f64, asinf f32, asin f64, acosf f32, acos f64, atanf f32, atan f64, sinhf f32, sinh f64, coshf f32, cosh f64,
    tanhf f32, tanh f64, expm1f f32, expm1 f64, log1pf f32, log1p f64, cbrtf f32, cbrt f64);
m2!(atan2f f32, atan2 f64, hypotf f32, hypot f64);
