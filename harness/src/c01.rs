//! C01: block processing equals sample-by-sample processing.
use crate::prim::*;
use crate::units::*;
use crate::util::*;

const PARTS: &[&[usize]] = &[&[64, 6], &[1, 7, 8, 3, 51], &[13, 57]];
/// Units that branch on data at every sample get a shorter signal.
const SHORT: &[&str] = &["hold", "poly_saw", "poly_square", "poly_pulse", "resample"];
const SHORT_PARTS: &[&[usize]] = &[&[9], &[1, 8], &[5, 4]];

#[inline(never)]
pub fn body(s: Spec) {
    let mut a = s.unit;
    let mut b = a.clone();
    if s.name == "update" || s.name == "p_update" {
        return;
    }
    let parts = if SHORT.contains(&s.name) { SHORT_PARTS } else { PARTS };
    let n = parts[0].iter().sum();
    let x = signal(s.ins, n);
    let t = by_tick(&mut *a, &x, n);
    let p = by_block(&mut *b, &x, 0, parts[choose(parts.len())]);
    near(&t, &p, s.tol, "block processing differs from single sample processing");
}
units!("c01");
