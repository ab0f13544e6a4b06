//! Helpers shared by the harnesses.
use crate::prim::*;
use fundsp::hacker::*;

/// Range of an input channel and whether it is audio (fresh symbolic value per sample)
/// or control (two symbolic values, the second from sample `SWITCH` on).
#[derive(Clone, Copy)]
pub struct R {
    pub lo: f32,
    pub hi: f32,
    pub audio: bool,
}
pub const A: R = R { lo: -1.0, hi: 1.0, audio: true };
/// frequency control
pub const F: R = R { lo: 20.0, hi: 8000.0, audio: false };
/// Q control
pub const Q: R = R { lo: 0.25, hi: 8.0, audio: false };
/// gain control
pub const G: R = R { lo: 0.25, hi: 4.0, audio: false };
/// unit interval control
pub const U: R = R { lo: 0.0, hi: 1.0, audio: false };
/// bipolar control
pub const B: R = R { lo: -1.0, hi: 1.0, audio: false };
pub const fn ctl(lo: f32, hi: f32) -> R {
    R { lo, hi, audio: false }
}
pub const fn aud(lo: f32, hi: f32) -> R {
    R { lo, hi, audio: true }
}
pub const SWITCH: usize = 5;

/// A symbolic multichannel signal, indexed [channel][sample].
pub fn signal(r: &[R], n: usize) -> Vec<Vec<f32>> {
    let mut v = Vec::with_capacity(r.len());
    for c in r {
        let mut s = Vec::with_capacity(n);
        if c.audio {
            for _ in 0..n {
                s.push(f32_in(c.lo, c.hi));
            }
        } else {
            let p = f32_in(c.lo, c.hi);
            let q = f32_in(c.lo, c.hi);
            for i in 0..n {
                s.push(if i < SWITCH { p } else { q });
            }
        }
        v.push(s);
    }
    v
}

/// Like `signal`, with control inputs that do not change.
pub fn steady(r: &[R], n: usize) -> Vec<Vec<f32>> {
    let mut v = Vec::with_capacity(r.len());
    for c in r {
        let p = f32_in(c.lo, c.hi);
        let mut s = Vec::with_capacity(n);
        for i in 0..n {
            s.push(if c.audio && i > 0 { f32_in(c.lo, c.hi) } else { p });
        }
        v.push(s);
    }
    v
}

/// Output of single sample processing, [channel][sample].
pub fn by_tick(u: &mut dyn AudioUnit, x: &[Vec<f32>], n: usize) -> Vec<Vec<f32>> {
    let (ni, no) = (u.inputs(), u.outputs());
    let mut out = vec![Vec::with_capacity(n); no];
    let mut fi = vec![0.0; ni];
    let mut fo = vec![0.0; no];
    for i in 0..n {
        for c in 0..ni {
            fi[c] = x[c][i];
        }
        u.tick(&fi, &mut fo);
        for c in 0..no {
            out[c].push(fo[c]);
        }
    }
    out
}

/// Output of block processing with the given block sizes, starting from sample `from`.
pub fn by_block(u: &mut dyn AudioUnit, x: &[Vec<f32>], from: usize, sizes: &[usize]) -> Vec<Vec<f32>> {
    let (ni, no) = (u.inputs(), u.outputs());
    let mut out = vec![Vec::new(); no];
    let mut bi = BufferVec::new(ni);
    let mut bo = BufferVec::new(no);
    let mut p = from;
    for &s in sizes {
        // stale contents of reused buffers must not matter
        for c in 0..ni {
            for i in 0..MAX_BUFFER_SIZE {
                bi.set_f32(c, i, if i < s { x[c][p + i] } else { 77.0 });
            }
        }
        for c in 0..no {
            for i in 0..MAX_BUFFER_SIZE {
                bo.set_f32(c, i, 55.0);
            }
        }
        u.process(s, &bi.buffer_ref(), &mut bo.buffer_mut());
        for c in 0..no {
            for i in 0..s {
                out[c].push(bo.at_f32(c, i));
            }
        }
        p += s;
    }
    out
}

pub fn same(a: &[Vec<f32>], b: &[Vec<f32>], msg: &'static str) {
    for c in 0..a.len() {
        for i in 0..a[c].len() {
            eq32(a[c][i], b[c][i], msg);
        }
    }
}
pub fn near(a: &[Vec<f32>], b: &[Vec<f32>], tol: f32, msg: &'static str) {
    for c in 0..a.len() {
        for i in 0..a[c].len() {
            close(a[c][i], b[c][i], tol, msg);
        }
    }
}
