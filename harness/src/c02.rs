//! C02: reset restores the initial state.
use crate::prim::*;
use crate::units::*;
use crate::util::*;

const H: usize = 20;
const N: usize = 72;
const LONG: usize = 300;
const SHORT: &[&str] = &["hold", "poly_saw", "poly_square", "poly_pulse", "resample"];

#[inline(never)]
pub fn body(s: Spec) {
    // The events of a non-replaying sequencer are cleared by design, and updates are tied to block boundaries.
    if s.name == "sequencer" {
        return;
    }
    let n = if SHORT.contains(&s.name) { 8 } else if s.name.starts_with("reverb") { LONG } else { N };
    let h = if SHORT.contains(&s.name) { 4 } else { H };
    let mut a = s.unit;
    let mut b = (s.make)();
    let y = steady(s.ins, h);
    // history: blocks and single samples
    match choose(2) {
        0 => {
            by_block(&mut *a, &y, 0, &[h - 3, 3]);
        }
        _ => {
            by_tick(&mut *a, &y, h);
        }
    }
    a.reset();
    let x = steady(s.ins, n);
    let sizes: &[usize] = if n == N { &[64, 8] } else if n == LONG { &[64, 64, 64, 64, 44] } else { &[8] };
    let p = by_block(&mut *a, &x, 0, sizes);
    let q = by_block(&mut *b, &x, 0, sizes);
    near(&p, &q, 1e-7, "output after reset differs from the output of a new unit");
}
units!("c02");
