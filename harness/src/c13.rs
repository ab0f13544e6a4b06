//! C13: delay lines, taps and feedback loops are sample accurate.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;

type Sig = Vec<Vec<f32>>;
const SR: f64 = 48000.0;

/// Runs `u` on symbolic audio with constant control inputs `ctl`, in blocks or sample by sample,
/// and compares with the reference.
fn go(u: &mut dyn AudioUnit, audio: usize, ctl: &[f32], long: bool, tol: f32, f: impl FnOnce(&[Vec<f32>], usize) -> Sig) {
    let (n, sizes): (usize, &[usize]) = match choose(3) {
        0 => (if long { 75 } else { 12 }, &[]),
        1 => {
            if long {
                (75, &[64, 8, 3])
            } else {
                (24, &[24])
            }
        }
        _ => {
            if long {
                (75, &[3, 16, 40, 16])
            } else {
                (20, &[5, 8, 7])
            }
        }
    };
    let mut r = vec![];
    for _ in 0..audio {
        r.push(A);
    }
    let mut x = signal(&r, n);
    for c in ctl {
        x.push(vec![*c; n]);
    }
    let y = if sizes.is_empty() { by_tick(u, &x, n) } else { by_block(u, &x, 0, sizes) };
    let w = f(&x, n);
    check(w.len() == y.len(), "number of channels");
    near(&y, &w, tol, "output differs from the exact delay or recurrence");
}
fn at(x: &[f32], i: isize) -> f32 {
    if i < 0 {
        0.0
    } else {
        x[i as usize]
    }
}
fn cubic(y0: f32, y1: f32, y2: f32, y3: f32, x: f32) -> f32 {
    // Catmull-Rom: value y1 at 0 and y2 at 1, slopes (y2 - y0) / 2 and (y3 - y1) / 2
    let (a, b) = ((y2 - y0) * 0.5, (y3 - y1) * 0.5);
    let (x2, x3) = (x * x, x * x * x);
    (2.0 * x3 - 3.0 * x2 + 1.0) * y1 + (x3 - 2.0 * x2 + x) * a + (3.0 * x2 - 2.0 * x3) * y2 + (x3 - x2) * b
}
fn cubic_at(x: &[f32], i: usize, k: usize, d: f32) -> f32 {
    let p = i as isize - k as isize;
    cubic(at(x, p + 1), at(x, p), at(x, p - 1), at(x, p - 2), d)
}
fn linear_at(x: &[f32], i: usize, k: usize, d: f32) -> f32 {
    let p = i as isize - k as isize;
    (1.0 - d) * at(x, p) + d * at(x, p - 1)
}
/// A delay within (k, k + 1) samples: (seconds, fraction).
fn between(k: usize) -> (f32, f32) {
    let s = f32_in((k as f32 + 0.0625) / SR as f32, (k as f32 + 0.9375) / SR as f32);
    (s, s * SR as f32 - k as f32)
}
fn rate(u: &mut dyn AudioUnit) {
    u.set_sample_rate(SR);
}
/// y[i] = X(x[i] + loop(y[i - d])) with the state of X kept
fn recur(x: &[Vec<f32>], n: usize, d: usize, u: &mut dyn AudioUnit, mut back: impl FnMut(&[f32]) -> Vec<f32>) -> Sig {
    let c = x.len();
    let mut y: Sig = vec![vec![]; c];
    let mut fb: Vec<Vec<f32>> = vec![];
    let mut o = vec![0.0; c];
    for i in 0..n {
        let mut f = vec![];
        for k in 0..c {
            f.push(x[k][i] + if i >= d { fb[i - d][k] } else { 0.0 });
        }
        u.tick(&f, &mut o);
        fb.push(back(&o));
        for k in 0..c {
            y[k].push(o[k]);
        }
    }
    y
}

harnesses! { "c13";
    delay_exact: { let d = [0, 1, 2, 7, 8, 64, 65][choose(7)];
        let mut u = delay(d as f32 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[], true, 0.0, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - d)).collect()]) };
    delay_rounded: { // the delay is rounded to the nearest sample
        let d = [1, 5][choose(2)];
        let t = f64_in((d as f64 - 0.4999) / SR, (d as f64 + 0.4999) / SR);
        let mut u = An(Delay::new(t)); rate(&mut u);
        go(&mut u, 1, &[], false, 0.0, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - d)).collect()]) };
    delay_rates: { // and follows the sample rate
        let sr = [8000.0, 44100.0, 96000.0][choose(3)];
        let mut u = delay(0.0005); u.set_sample_rate(sr);
        let d = (0.0005 * sr).round() as isize;
        go(&mut u, 1, &[], true, 0.0, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - d)).collect()]) };
    tap1: { let k = [1, 2, 5, 14][choose(4)]; let (t, d) = between(k);
        let mut u = tap(0.0, 16.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], false, 1e-3, |x, n| vec![(0..n).map(|i| cubic_at(&x[0], i, k, d)).collect()]) };
    tap_whole: { let k = [2usize, 3, 8, 16, 30][choose(5)]; let t = k as f32 / SR as f32;
        let mut u = tap(0.0, 32.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], true, 1e-3, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - k as isize)).collect()]) };
    tap_below: { // clamped to the minimum
        let t = f32_in(-1.0, 3.9 / SR as f32);
        let mut u = tap(4.0 / SR as f32, 16.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], false, 1e-3, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - 4)).collect()]) };
    tap_above: { let t = f32_in(8.1 / SR as f32, 1.0);
        let mut u = tap(4.0 / SR as f32, 8.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], false, 1e-3, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - 8)).collect()]) };
    tap_minimum: { // the smallest possible delay is one sample
        let t = f32_in(0.0, 0.99 / SR as f32);
        let mut u = tap(0.0, 8.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], false, 1e-3, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - 1)).collect()]) };
    multitap2: { let (k, m) = ([1, 6][choose(2)], [3, 11][choose(2)]); let ((t, d), (s, e)) = (between(k), between(m));
        let mut u = multitap::<U2>(0.0, 16.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t, s], false, 1e-3, |x, n| vec![(0..n).map(|i| cubic_at(&x[0], i, k, d) + cubic_at(&x[0], i, m, e)).collect()]) };
    tap_linear1: { let k = [0, 1, 5, 14][choose(4)]; let (t, d) = between(k);
        let mut u = tap_linear(0.0, 16.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], false, 1e-4, |x, n| vec![(0..n).map(|i| linear_at(&x[0], i, k, d)).collect()]) };
    tap_linear_whole: { let k = [0usize, 1, 8, 30][choose(4)]; let t = k as f32 / SR as f32;
        let mut u = tap_linear(0.0, 32.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], true, 1e-3, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - k as isize)).collect()]) };
    tap_linear_clamped: { let low = choose(2) == 0; let t = if low { f32_in(-1.0, 3.9 / SR as f32) } else { f32_in(8.1 / SR as f32, 1.0) };
        let k = if low { 4 } else { 8 };
        let mut u = tap_linear(4.0 / SR as f32, 8.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t], false, 1e-3, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - k)).collect()]) };
    multitap_linear3: { let (k, m, l) = ([0, 6][choose(2)], 3, 11); let ((t, d), (s, e), (r, f)) = (between(k), between(m), between(l));
        let mut u = multitap_linear::<U3>(0.0, 16.0 / SR as f32); rate(&mut u);
        go(&mut u, 1, &[t, s, r], false, 1e-4, |x, n| vec![(0..n).map(|i| linear_at(&x[0], i, k, d) + linear_at(&x[0], i, m, e) + linear_at(&x[0], i, l, f)).collect()]) };
    feedback1: { let mut u = feedback(q11(0.5));
        go(&mut u, 1, &[], true, 1e-4, |x, n| recur(x, n, 1, &mut q11(0.5), |o| o.to_vec())) };
    feedback_2ch: { let mut u = feedback(q22(0.25));
        go(&mut u, 2, &[], false, 1e-4, |x, n| recur(x, n, 1, &mut q22(0.25), |o| o.to_vec())) };
    feedback_delay: { let g = f32_in(-1.0, 1.0);
        let d = [1usize, 4, 20][choose(3)];
        let mut u = feedback(delay((d - 1) as f32 / SR as f32) * g); rate(&mut u);
        go(&mut u, 1, &[], false, 1e-3, |x, n| { let mut y: Vec<f32> = vec![];
            for i in 0..n { let b = if i >= d - 1 { let p = i - (d - 1); at(&x[0], p as isize) + if p >= 1 { y[p - 1] } else { 0.0 } } else { 0.0 }; y.push(b * g); }
            vec![y] }) };
    feedback2_1: { let mut u = feedback2(q11(0.5), q11(0.25));
        go(&mut u, 1, &[], true, 1e-4, |x, n| { let mut b = q11(0.25); let mut r = [0.0]; recur(x, n, 1, &mut q11(0.5), |o| { AudioUnit::tick(&mut b, o, &mut r); r.to_vec() }) }) };
    feedback2_2ch: { let mut u = feedback2(q22(0.25), q22(0.125));
        go(&mut u, 2, &[], false, 1e-4, |x, n| { let mut b = q22(0.125); let mut r = [0.0; 2]; recur(x, n, 1, &mut q22(0.25), |o| { AudioUnit::tick(&mut b, o, &mut r); r.to_vec() }) }) };
    feedback_unit: { let d = [0, 1, 2, 5, 8, 16, 63, 64, 70][choose(9)];
        let mut u = FeedbackUnit::new(d as f64 / SR, Box::new(q11(0.5))); rate(&mut u);
        go(&mut u, 1, &[], true, 1e-4, |x, n| { let mut r = q11(0.5); rate(&mut r); recur(x, n, if d == 0 { 1 } else { d }, &mut r, |o| o.to_vec()) }) };
    feedback_unit_2ch: { let d = [1, 3, 8, 20][choose(4)];
        let mut u = FeedbackUnit::new(d as f64 / SR, Box::new(q22(0.25))); rate(&mut u);
        go(&mut u, 2, &[], false, 1e-4, |x, n| { let mut r = q22(0.25); rate(&mut r); recur(x, n, d, &mut r, |o| o.to_vec()) }) };
    feedback_unit_rates: { let sr = [8000.0, 44100.0][choose(2)];
        let mut u = FeedbackUnit::new(0.0005, Box::new(q11(0.5))); u.set_sample_rate(sr);
        go(&mut u, 1, &[], true, 1e-4, |x, n| { let mut r = q11(0.5); r.set_sample_rate(sr); recur(x, n, (0.0005 * sr).round() as usize, &mut r, |o| o.to_vec()) }) };
    fdn2: { let mut u = fdn::<U2, _>(q22(0.25));
        go(&mut u, 2, &[], false, 1e-4, |x, n| { let c = 0.5f32.sqrt(); recur(x, n, 1, &mut q22(0.25), |o| vec![(o[0] + o[1]) * c, (o[0] - o[1]) * c]) }) };
    fdn4: { let mut u = fdn::<U4, _>(stacki::<U4, _, _>(|i| q11(0.25 + 0.125 * i as f32)));
        go(&mut u, 4, &[], false, 3e-3, |x, n| { let mut v = stacki::<U4, _, _>(|i| q11(0.25 + 0.125 * i as f32)); recur(x, n, 1, &mut v, |o|
            vec![(o[0] + o[1] + o[2] + o[3]) * 0.5, (o[0] - o[1] + o[2] - o[3]) * 0.5, (o[0] + o[1] - o[2] - o[3]) * 0.5, (o[0] - o[1] - o[2] + o[3]) * 0.5]) }) };
    fdn_with_loop: { let mut u = fdn_loop();
        go(&mut u, 2, &[], false, 1e-4, |x, n| { let c = 0.5f32.sqrt(); let mut b = q22(0.125); let mut r = [0.0; 2];
            recur(x, n, 1, &mut q22(0.25), |o| { AudioUnit::tick(&mut b, o, &mut r); vec![(r[0] + r[1]) * c, (r[0] - r[1]) * c] }) }) };
    allnest: { let e = f32_in(-0.9, 0.9);
        let mut u = allnest_c(e, q11(0.5));
        go(&mut u, 1, &[], false, 1e-3, |x, n| nest(&x[0], n, e)) };
    allnest_input: { let e = f32_in(-0.9, 0.9);
        let mut u = allnest(q11(0.5));
        go(&mut u, 1, &[e], false, 1e-3, |x, n| nest(&x[0], n, e)) };
    allpass_delay: { // nested allpass around a delay: y[i] = e x[i] + x[i - d] - e y[i - d]
        let e = [0.5f32, -0.75][choose(2)]; let d = [1usize, 3, 9][choose(3)];
        let mut u = allnest_c(e, delay((d - 1) as f32 / SR as f32)); rate(&mut u);
        go(&mut u, 1, &[], false, 1e-3, |x, n| { let mut y: Vec<f32> = vec![];
            for i in 0..n { let (p, q) = if i >= d { (x[0][i - d], y[i - d]) } else { (0.0, 0.0) }; y.push(e * x[0][i] + p - e * q); }
            vec![y] }) };
    tick_chain: { let mut u = tick() >> tick() >> tick();
        go(&mut u, 1, &[], true, 0.0, |x, n| vec![(0..n).map(|i| at(&x[0], i as isize - 3)).collect()]) };
}
fn fdn_loop() -> impl AudioUnit {
    fdn2::<U2, _, _>(q22(0.25), q22(0.125))
}
/// v = x - e z, y = e v + z, z = X(v) of the previous sample
fn nest(x: &[f32], n: usize, e: f32) -> Sig {
    let mut u = q11(0.5);
    let (mut z, mut y) = ([0.0], vec![]);
    for i in 0..n {
        let v = x[i] - e * z[0];
        y.push(e * v + z[0]);
        AudioUnit::tick(&mut u, &[v], &mut z);
    }
    vec![y]
}
