//! C03: clones are identical and independent.
use crate::prim::*;
use crate::units::*;
use crate::util::*;

const SHORT: &[&str] = &["hold", "poly_saw", "poly_square", "poly_pulse", "resample"];

#[inline(never)]
pub fn body(s: Spec) {
    let short = SHORT.contains(&s.name);
    let (h, n) = if short { (3, 5) } else { (17, 70) };
    let mut a = s.unit;
    let mut r1 = (s.make)();
    let mut r2 = (s.make)();
    let y = steady(s.ins, h);
    by_block(&mut *a, &y, 0, &[h - 2, 1, 1]);
    by_block(&mut *r1, &y, 0, &[h - 2, 1, 1]);
    by_block(&mut *r2, &y, 0, &[h - 2, 1, 1]);
    let mut b = a.clone();
    let x = steady(s.ins, n);
    let z = steady(s.ins, n);
    let sizes: &[usize] = if short { &[5] } else { &[64, 6] };
    // interleave the clone and the original
    let (p, q) = if choose(2) == 0 {
        let q = by_block(&mut *b, &z, 0, sizes);
        let p = by_block(&mut *a, &x, 0, sizes);
        (p, q)
    } else {
        let p = by_block(&mut *a, &x, 0, sizes);
        let q = by_block(&mut *b, &z, 0, sizes);
        (p, q)
    };
    let rp = by_block(&mut *r1, &x, 0, sizes);
    let rq = by_block(&mut *r2, &z, 0, sizes);
    near(&p, &rp, 1e-7, "original is disturbed by its clone");
    near(&q, &rq, 1e-7, "clone differs from the original or is disturbed by it");
    // state kept for a reset is cloned as well
    if s.name != "sequencer" {
        a.reset();
        b.reset();
        let p = by_block(&mut *a, &x, 0, &[5]);
        let q = by_block(&mut *b, &x, 0, &[5]);
        near(&p, &q, 1e-7, "clone differs from the original after both are reset");
    }
}
units!("c03");
