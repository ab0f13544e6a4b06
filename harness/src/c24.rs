//! C24: no heap allocation while processing.
use crate::prim::*;
use crate::units::*;
use crate::util::*;

const SHORT: &[&str] = &["hold", "poly_saw", "poly_square", "poly_pulse", "resample"];

#[inline(never)]
pub fn body(s: Spec) {
    let short = SHORT.contains(&s.name);
    let n = if short { 6 } else { 80 };
    let mut a = s.unit;
    let (ni, no) = (a.inputs(), a.outputs());
    // An event that is over is freed by the sequencer; real-time use goes through its backend.
    if s.name == "sequencer" {
        return;
    }
    match choose(4) {
        3 => {
            a.set_sample_rate(22050.0);
            a.allocate();
            a.set_sample_rate(48000.0);
            a.allocate();
        }
        0 => a.allocate(),
        1 => {
            a.set_sample_rate(48000.0);
            a.allocate();
        }
        _ => {
            a = a.clone();
            a.allocate();
        }
    }
    let x = steady(s.ins, n);
    let mut fi = vec![0.0; ni];
    let mut fo = vec![0.0; no];
    let mut bi = BufferVec::new(ni);
    let mut bo = BufferVec::new(no);
    let again = choose(2) == 1;
    noalloc(true);
    let sizes: &[usize] = if short { &[4] } else { &[64, 7] };
    let mut p = 0;
    for &k in sizes {
        for c in 0..ni {
            for i in 0..k {
                bi.set_f32(c, i, x[c][p + i]);
            }
        }
        a.process(k, &bi.buffer_ref(), &mut bo.buffer_mut());
        p += k;
    }
    // resetting at an unchanged sample rate does not allocate either
    if again {
        a.reset();
    }
    while p < n {
        for c in 0..ni {
            fi[c] = x[c][p];
        }
        a.tick(&fi, &mut fo);
        p += 1;
    }
    noalloc(false);
    check(true, "processed without heap operation");
}
units!("c24");
