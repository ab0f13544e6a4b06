//! C22: waveshapers, panners and mixing matrices compute their documented functions.
use crate::prim::*;
use crate::util::*;
use fundsp::feedback::FrameHadamard;
use fundsp::hacker::*;

/// Runs a mono unit on one symbolic value, alone or in a block, and hands input and output to `f`.
fn on(mut u: Box<dyn AudioUnit>, lo: f32, hi: f32, f: impl Fn(f32, f32)) {
    if choose(2) == 0 {
        let x = f32_in(lo, hi);
        let mut o = [0.0];
        u.tick(&[x], &mut o);
        f(x, o[0]);
    } else {
        let n = 11;
        let mut x = vec![vec![]];
        for _ in 0..n {
            x[0].push(f32_in(lo, hi));
        }
        let y = by_block(&mut *u, &x, 0, &[n]);
        for i in [0, 7, 8, 10] {
            f(x[0][i], y[0][i]);
        }
    }
}
fn lim(x: f32, lo: f32, hi: f32) -> f32 {
    if x < lo {
        lo
    } else if x > hi {
        hi
    } else {
        x
    }
}
fn hard() -> f32 {
    [0.25, 1.0, 3.0, 10.0][choose(4)]
}
/// Two inputs in order give outputs in order.
fn monotone(mk: impl Fn() -> Box<dyn AudioUnit>, lo: f32, hi: f32) {
    let mut u = mk();
    let (a, b) = (f32_in(lo, hi), f32_in(lo, hi));
    assume(a < b);
    let (mut p, mut q) = ([0.0], [0.0]);
    u.tick(&[a], &mut p);
    u.tick(&[b], &mut q);
    check(p[0] <= q[0] + 1.0e-5, "monotone");
}
fn adaptive(block: bool) {
    let ts = [0.01, 0.5][choose(2)];
    let sr = [44100.0, 96000.0][choose(2)];
    let mut u = shape(Adaptive::new(ts, Clip(0.5)));
    u.set_sample_rate(sr);
    let n = if block { 9 } else { 4 };
    let x: Vec<Vec<f32>> = signal(&[A], n);
    let y = if block { by_block(&mut u, &x, 0, &[n]) } else { by_tick(&mut u, &x, n) };
    let k = pow(0.5, 1.0 / (ts as f64 * sr)) as f32;
    let mut s = 1.0e-3f32;
    for i in 0..n {
        s = k * s + (1.0 - k) * (1.0e-6 + x[0][i] * x[0][i]);
        close(y[0][i], (x[0][i] / sqrt(s) * 0.5).clamp(-1.0, 1.0), 1.0e-3, "shape of the signal divided by its level");
        check(y[0][i] >= -1.0 && y[0][i] <= 1.0, "range");
    }
}
fn panned(input: bool) {
    let p = f32_in(-1.0, 1.0);
    let x = f32_in(-1.0, 1.0);
    let (l, r) = if input {
        let y = panner().tick(&Frame::from([x, p]));
        let z = panner().tick(&Frame::from([1.0, p]));
        close(y[0], x * z[0], 1.0e-5, "linear");
        close(y[1], x * z[1], 1.0e-5, "linear");
        (z[0], z[1])
    } else {
        let y = pan(p).tick(&Frame::from([x]));
        let z = pan(p).tick(&Frame::from([1.0]));
        close(y[0], x * z[0], 1.0e-5, "linear");
        close(y[1], x * z[1], 1.0e-5, "linear");
        (z[0], z[1])
    };
    close(l * l + r * r, 1.0, 1.0e-4, "equal power");
}
fn pan_ends(input: bool) {
    let x = f32_in(-1.0, 1.0);
    let k = choose(5);
    let p = [-1.0, 0.0, 1.0, -7.5, 3.25][k];
    let h = 0.70710677;
    let (a, b) = [(1.0, 0.0), (h, h), (0.0, 1.0), (1.0, 0.0), (0.0, 1.0)][k];
    let mut u: Box<dyn AudioUnit> = if input { Box::new((pass() | dc(p)) >> panner()) } else { Box::new(pan(p)) };
    let n = 10;
    let s = signal(&[A], n);
    let y = if choose(2) == 0 { by_tick(&mut *u, &s, n) } else { by_block(&mut *u, &s, 0, &[n]) };
    for i in 0..n {
        close(y[0][i], s[0][i] * a, 1.0e-5, "left");
        close(y[1][i], s[0][i] * b, 1.0e-5, "right");
    }
    let _ = x;
}
fn rotated() {
    let a = f32_in(-10.0, 10.0);
    let g = f32_in(0.0, 2.0);
    let (x, y) = (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0));
    let z = rotate(a, g).tick(&Frame::from([x, y]));
    close(z[0] * z[0] + z[1] * z[1], g * g * (x * x + y * y), 1.0e-3, "rotation keeps the norm");
    let k = choose(4);
    let q = rotate(f32::PI * 0.5 * k as f32, 1.0).tick(&Frame::from([x, y]));
    let (c, d) = [(x, y), (-y, x), (-x, -y), (y, -x)][k];
    close(q[0], c, 1.0e-5, "quarter turns");
    close(q[1], d, 1.0e-5, "quarter turns");
}
fn hadamard<N: Size<f32>>() {
    let n = N::USIZE;
    let mut x: Frame<f32, N> = Frame::default();
    for i in 0..n {
        x[i] = f32_in(-1.0, 1.0);
    }
    let h = FrameHadamard::<N>::new();
    let y = h.frame(&x);
    let z = h.frame(&y);
    let s = 1.0 / (n as f32).sqrt();
    for i in 0..n {
        close(z[i], x[i], 1.0e-4, "the matrix is its own inverse");
        let mut w = 0.0;
        for j in 0..n {
            if (i & j).count_ones() % 2 == 0 {
                w += x[j];
            } else {
                w -= x[j];
            }
        }
        close(y[i], w * s, 1.0e-4, "Hadamard matrix");
    }
    if n <= 8 {
        let (mut a, mut b) = (0.0, 0.0);
        for i in 0..n {
            a += x[i] * x[i];
            b += y[i] * y[i];
        }
        close(a, b, 1.0e-3, "energy is kept");
    }
}
fn mixed() {
    let m: [[f32; 3]; 2] = [[1.0, -0.5, 0.25], [0.0, 2.0, -1.0]];
    let mut u = An(fundsp::pan::Mixer::<U3, U2>::new(Frame::from([Frame::from(m[0]), Frame::from(m[1])])));
    let n = 10;
    let x = signal(&[A, A, A], n);
    let y = if choose(2) == 0 { by_tick(&mut u, &x, n) } else { by_block(&mut u, &x, 0, &[n]) };
    for i in 0..n {
        for c in 0..2 {
            close(y[c][i], m[c][0] * x[0][i] + m[c][1] * x[1][i] + m[c][2] * x[2][i], 1.0e-5, "matrix product");
        }
    }
}
fn staircase(h: f32) {
    on(Box::new(shape(Crush(h))), -3.0, 3.0, |x, y| {
        check((y - x).abs() <= 0.5 / h + 1.0e-5, "nearest level");
        close(y * h, (y * h).round(), 1.0e-4, "a level");
    });
}
fn soft_staircase(h: f32) {
    on(Box::new(shape(SoftCrush(h))), -3.0, 3.0, |x, y| {
        check((y - x).abs() <= 1.0 / h + 1.0e-5, "between the levels around the input");
        let f = (x * h).floor();
        check(y * h >= f - 1.0e-3 && y * h <= f + 1.0 + 1.0e-3, "between the levels around the input");
    });
    let k = choose(7) as f32 - 3.0;
    let y = shape(SoftCrush(h)).tick(&Frame::from([k / h]))[0];
    close(y, k / h, 1.0e-3, "levels are kept");
    let y = shape(SoftCrush(h)).tick(&Frame::from([(k + 0.5) / h]))[0];
    close(y, (k + 0.5) / h, 1.0e-3, "halfway points are kept");
}

harnesses! { "c22";
    clip: on(Box::new(clip()), -1.0e6, 1.0e6, |x, y| eq32(y, lim(x, -1.0, 1.0), "clipped to -1...1"));
    clip_hard: { let h = f32_in(0.1, 10.0); on(Box::new(shape(Clip(h))), -100.0, 100.0, move |x, y| close(y, lim(x * h, -1.0, 1.0), 1.0e-6, "clipped to -1...1")) };
    clip_to: {
        let (a, b) = (f32_in(-10.0, 1.0), f32_in(1.0, 10.0));
        on(Box::new(clip_to(a, b)), -100.0, 100.0, move |x, y| eq32(y, lim(x, a, b), "clipped to the range"))
    };
    tanh: { let h = hard(); on(Box::new(shape(Tanh(h))), -100.0, 100.0, move |x, y| {
        close(y, fundsp::math::tanh(x * h), 1.0e-6, "hyperbolic tangent");
        check(y >= -1.0 && y <= 1.0, "range");
    }) };
    tanh_sign: { let h = hard(); on(Box::new(shape(Tanh(h))), 0.01, 100.0, |_, y| check(y > 0.0, "keeps the sign")) };
    atan: { let h = hard(); on(Box::new(shape(Atan(h))), -100.0, 100.0, |_, y| check(y >= -1.0001 && y <= 1.0001, "range")) };
    atan_tick: { let h = hard(); let x = f32_in(-100.0, 100.0);
        close(shape(Atan(h)).tick(&Frame::from([x]))[0], atan(x * (h * f32::PI * 0.5)) * (2.0 / f32::PI), 1.0e-6, "arcus tangent") };
    softsign: { let h = hard(); on(Box::new(shape(Softsign(h))), -100.0, 100.0, move |x, y| {
        close(y, x * h / (1.0 + (x * h).abs()), 1.0e-6, "softsign");
        check(y >= -1.0 && y <= 1.0, "range");
    }) };
    softsign_mono: monotone(|| Box::new(shape(Softsign(2.0))), -50.0, 50.0);
    softcrush_mono: monotone(|| Box::new(shape(SoftCrush(4.0))), -1.0, 1.0);
    crush_mono: monotone(|| Box::new(shape(Crush(4.0))), -2.0, 2.0);
    tanh_mono: monotone(|| Box::new(shape(Tanh(2.0))), -2.0, 2.0);
    crush2: staircase(2.0);
    crush10: staircase(10.0);
    softcrush2: soft_staircase(2.0);
    softcrush8: soft_staircase(8.0);
    closure: { let a = f32_in(-2.0, 2.0); on(Box::new(shape_fn(move |x| x * x - a)), -10.0, 10.0, move |x, y| eq32(y, x * x - a, "the function")) };
    adaptive_tick: adaptive(false);
    adaptive_block: adaptive(true);
    pan: panned(false);
    panner: panned(true);
    pan_ends: pan_ends(false);
    panner_ends: pan_ends(true);
    rotate: rotated();
    mixer: mixed();
    hadamard2: hadamard::<U2>();
    hadamard4: hadamard::<U4>();
    hadamard8: hadamard::<U8>();
    hadamard16: hadamard::<U16>();
    hadamard32: hadamard::<U32>();
}
