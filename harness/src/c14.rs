//! C14: changing the sample rate leaves no trace of the previous rate.
use crate::prim::*;
use crate::units::*;
use crate::util::*;

const SHORT: &[&str] = &["hold", "poly_saw", "poly_square", "poly_pulse", "resample"];
const RATES: &[(f64, f64)] = &[(96000.0, 48000.0), (22050.0, 48000.0), (48000.0, 48000.0)];

#[inline(never)]
pub fn body(s: Spec) {
    if s.name == "sequencer" {
        return;
    }
    let short = SHORT.contains(&s.name);
    let long = s.name.starts_with("reverb");
    let (h, n) = if short { (3, 5) } else if long { (12, 300) } else { (12, 80) };
    let mut a = s.unit;
    let mut b = (s.make)();
    let (r0, r1) = RATES[choose(RATES.len())];
    let y = steady(s.ins, h);
    a.set_sample_rate(r0);
    by_block(&mut *a, &y, 0, &[h]);
    a.set_sample_rate(r1);
    a.reset();
    b.set_sample_rate(r1);
    b.reset();
    let x = steady(s.ins, n);
    let sizes: &[usize] = if short { &[5] } else if long { &[64, 64, 64, 64, 44] } else { &[64, 16] };
    let p = by_block(&mut *a, &x, 0, sizes);
    let q = by_block(&mut *b, &x, 0, sizes);
    near(&p, &q, 1e-7, "output depends on a previous sample rate");
}
units!("c14");
