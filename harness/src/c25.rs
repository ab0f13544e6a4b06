//! C25: dynamics, meters, followers and envelopes.
use crate::prim::*;
use crate::util::*;
use fundsp::dynamics::{Maximum, ReduceBuffer};
use fundsp::hacker::*;

/// Limiter with lookahead of `l` samples, all inputs symbolic.
fn limits(l: usize, release: f32, n: usize, a: f32) {
    let mut u = limiter(l as f32 / 44100.0, release);
    check(u.latency() == Some(l as f64), "reported latency of limiter");
    let x = signal(&[aud(-a, a)], n);
    let y = by_tick(&mut u, &x, n);
    for i in 0..l {
        eq32(y[0][i], 0.0, "limiter output before its latency");
    }
    for i in l..n {
        check(abs(y[0][i]) <= 1.0001, "limiter output exceeds one");
        check(abs(y[0][i]) <= abs(x[0][i - l]) + 1e-6, "limiter amplifies");
    }
}

/// A quiet signal passes unchanged, delayed by the latency.
fn quiet(l: usize, rate: f64) {
    let n = l + 10;
    let x = signal(&[aud(-0.9, 0.9), aud(-0.9, 0.9)], n);
    let mut u = limiter_stereo(l as f32 / rate as f32, 0.01);
    u.set_sample_rate(rate);
    check(u.latency() == Some(l as f64), "reported latency of limiter");
    let y = by_tick(&mut u, &x, n);
    for c in 0..2 {
        for i in 0..n {
            close(y[c][i], if i < l { 0.0 } else { x[c][i - l] }, 1e-6, "quiet signal through limiter");
        }
    }
}

fn reduce(n: usize) {
    let mut b = ReduceBuffer::<f32, Maximum<f32>>::new(n, Maximum::new());
    check(b.length() == n, "length of reduce buffer");
    let mut m = Vec::with_capacity(n);
    m.resize(n, 0.0f32);
    for _ in 0..4 {
        let i = choose(n);
        let x = f32_in(0.0, 4.0);
        b.set(i, x);
        m[i] = x;
        let mut hit = false;
        for y in m.iter() {
            check(b.total() >= *y, "total is smaller than an item");
            hit = hit | (b.total() == *y);
        }
        check(hit, "total is not an item");
    }
    b.clear();
    eq32(b.total(), 0.0, "total after clear");
}

fn halfway(mut u: Box<dyn AudioUnit>, up: f64, down: f64) {
    // concrete step up and down
    let go = |u: &mut Box<dyn AudioUnit>, x: f32, target: f32, up: bool| {
        for i in 0..4000 {
            let y = u.filter_mono(x);
            if (y >= target) == up {
                return i + 1;
            }
        }
        4000
    };
    u.filter_mono(0.0);
    let n = go(&mut u, 1.0, 0.5, true);
    close64(n as f64, up, 1.1, 0.02, "time to rise halfway");
    for _ in 0..4000 {
        u.filter_mono(1.0);
    }
    let n = go(&mut u, 0.0, 0.5, false);
    close64(n as f64, down, 1.1, 0.02, "time to fall halfway");
}

/// The first output is the input, later outputs stay within the range of inputs.
fn follows(mut u: Box<dyn AudioUnit>) {
    let x = signal(&[A], 5);
    let (mut lo, mut hi) = (x[0][0], x[0][0]);
    let mut last = 0.0;
    for i in 0..5 {
        let y = u.filter_mono(x[0][i]);
        if i == 0 {
            eq32(y, x[0][0], "follower does not start from its input");
        }
        lo = if x[0][i] < lo { x[0][i] } else { lo };
        hi = if x[0][i] > hi { x[0][i] } else { hi };
        check(y >= lo - 1e-5 && y <= hi + 1e-5, "follower leaves the range of its input");
        last = y;
    }
    let _ = last;
}

/// Envelopes interpolate, so a linear function is reproduced.
fn linear(mut u: Box<dyn AudioUnit>, x: &[Vec<f32>], f: impl Fn(f64) -> f64, n: usize) {
    let rate = [44100.0, 48000.0, 8000.0][choose(3)];
    u.set_sample_rate(rate);
    let block = choose(2) == 1;
    let y = if block { by_block(&mut *u, x, 0, &[64, 64, 7, 64, 1]) } else { by_tick(&mut *u, x, n) };
    for i in 0..y[0].len() {
        close64(y[0][i] as f64, f(i as f64 / rate), 2e-4, 0.0, "envelope of a linear function");
    }
}

fn smoothing(t: f64, rate: f64) -> f64 {
    pow(0.5, 1.0 / (t * rate))
}

fn adsr_ref(a: f64, d: f64, s: f64, t: f64) -> f64 {
    if t < a {
        t / a
    } else if t < a + d {
        1.0 + (s - 1.0) * (t - a) / d
    } else {
        s
    }
}

harnesses! { "c25";
    limit_2: { limits(2, [0.0, 0.01][choose(2)], 6, 4.0) };
    limit_3: { limits(3, [0.0, 0.01][choose(2)], 7, 4.0) };
    limit_5: { limits(5, 0.0001, 8, 2.0) };
    limit_impulse: {
        let l = [2, 4, 9, 20, 44][choose(5)];
        let mut u = limiter(l as f32 / 44100.0, [0.0, 0.0001, 0.1][choose(3)]);
        let a = f32_in(1.0, 100.0);
        let hold = [1, 3, 60][choose(3)];
        for i in 0..2 * l + 20 {
            let y = u.filter_mono(if i >= l + 2 && i < l + 2 + hold { a } else { 0.0 });
            check(abs(y) <= 1.0001, "limited impulse exceeds one");
        }
    };
    limit_link: {
        // the gain is common to all channels
        let mut u = limiter_stereo(3.0 / 44100.0, 0.001);
        let x = signal(&[aud(-4.0, 4.0), aud(-4.0, 4.0)], 6);
        let y = by_tick(&mut u, &x, 6);
        for i in 3..6 {
            close64(y[0][i] as f64 * x[1][i - 3] as f64, y[1][i] as f64 * x[0][i - 3] as f64, 1e-4, 0.0, "channels are limited differently");
        }
    };
    quiet_short: { quiet([1, 2, 3, 7][choose(4)], 44100.0) };
    quiet_long: { quiet(30, [44100.0, 48000.0, 22050.0][choose(3)]) };
    reduce_1: { reduce(1) };
    reduce_2: { reduce(2) };
    reduce_3: { reduce(3) };
    reduce_5: { reduce(5) };
    reduce_6: { reduce(6) };
    reduce_7: { reduce(7) };
    reduce_9: { reduce(9) };
    follow_range: { follows(Box::new(follow([0.0001, 0.01][choose(2)]))) };
    afollow_range: { follows(Box::new(afollow([0.0001, 0.01][choose(2)], [0.0, 0.001][choose(2)]))) };
    follow_half: { halfway(Box::new(follow(100.0 / 44100.0)), 100.0, 100.0) };
    follow_half_long: { halfway(Box::new(follow(1000.0 / 44100.0)), 1000.0, 1000.0) };
    afollow_half: { halfway(Box::new(afollow(50.0 / 44100.0, 400.0 / 44100.0)), 50.0, 400.0) };
    afollow_swapped: { halfway(Box::new(afollow(300.0 / 44100.0, 40.0 / 44100.0)), 300.0, 40.0) };
    follow_rate: {
        let mut u = follow(0.01);
        u.set_sample_rate(8000.0);
        halfway(Box::new(u), 80.0, 80.0)
    };
    declicks: {
        let x = signal(&[A], 30);
        let rate = [44100.0, 8000.0][choose(2)];
        let d = [20.0, 9.5, 0.0][choose(3)];
        let mut u = declick_s((d / rate) as f32);
        u.set_sample_rate(rate);
        let y = if choose(2) == 0 { by_tick(&mut u, &x, 30) } else { by_block(&mut u, &x, 0, &[3, 27]) };
        for i in 0..30 {
            let g = if (i as f64) < d { smooth5(i as f64 / d) } else { 1.0 };
            close(y[0][i], x[0][i] * g as f32, 1e-5, "fade-in");
        }
        u.reset();
        let y = by_tick(&mut u, &x, 5);
        eq32(y[0][0], if d > 0.0 { 0.0 } else { x[0][0] }, "fade-in after reset");
    };
    declick_default: {
        let x = f32_in(-1.0, 1.0);
        let mut u = declick();
        for i in 0..450 {
            let y = u.filter_mono(x);
            let g = if i < 441 { smooth5(i as f64 / 441.0) } else { 1.0 };
            close(y, x * g as f32, 1e-5, "fade-in of 10 ms");
        }
    };
    meter_sample: {
        let x = signal(&[A], 4);
        let mut u = meter(Meter::Sample);
        for i in 0..4 {
            eq32(u.filter_mono(x[0][i]), x[0][i], "sample meter");
        }
    };
    meter_peak: {
        let rate = [44100.0, 8000.0][choose(2)];
        let t = [1.0 / 44100.0, 0.01][choose(2)];
        let x = signal(&[A], 5);
        let mut u = meter(Meter::Peak(t));
        u.set_sample_rate(rate);
        let k = smoothing(t, rate) as f32;
        let mut m = 0.0;
        for i in 0..5 {
            let a = abs(x[0][i]);
            m = if a > m * k { a } else { m * k };
            close(u.filter_mono(x[0][i]), m, 1e-5, "peak meter");
        }
    };
    meter_decay: {
        // halves in the given time
        let a = f32_in(0.25, 1.0);
        let mut u = meter(Meter::Peak(100.0 / 44100.0));
        eq32(u.filter_mono(a), a, "peak");
        let mut y = a;
        for _ in 0..100 {
            y = u.filter_mono(0.0);
        }
        close(y, 0.5 * a, 1e-3, "peak does not halve in the given time");
        u.reset();
        eq32(u.filter_mono(0.0), 0.0, "peak after reset");
    };
    meter_rms: {
        let rate = [44100.0, 8000.0][choose(2)];
        let t = [1.0 / 44100.0, 0.01][choose(2)];
        let x = signal(&[A], 4);
        let mut u = meter(Meter::Rms(t));
        u.set_sample_rate(rate);
        let k = smoothing(t, rate) as f32;
        let mut m = 0.0;
        for i in 0..4 {
            m = m * k + x[0][i] * x[0][i] * (1.0 - k);
            close(squared(u.filter_mono(x[0][i])), m, 1e-5, "mean square meter");
        }
    };
    monitors: {
        let x = signal(&[A], 9);
        let kind = [Meter::Sample, Meter::Peak(0.0001), Meter::Rms(0.0001)][choose(3)];
        let s = shared(0.0);
        let mut u = monitor(&s, kind);
        let mut m = meter(kind);
        let z = by_tick(&mut m, &x, 9);
        if choose(2) == 0 {
            for i in 0..9 {
                eq32(u.filter_mono(x[0][i]), x[0][i], "monitor changes the signal");
                close(s.value(), z[0][i], 1e-6, "monitored value");
            }
        } else {
            let y = by_block(&mut u, &x, 0, &[9]);
            same(&y, &x, "monitor changes the signal");
            close(s.value(), z[0][8], 1e-6, "monitored value after a block");
        }
    };
    envelope_linear: {
        let (a, b) = (f64_in(-8.0, 8.0), f64_in(-1.0, 1.0));
        linear(Box::new(envelope(move |t| a * t + b)), &[], move |t| a * t + b, 200)
    };
    lfo_linear: {
        let (a, b) = (f64_in(-8.0, 8.0), f64_in(-1.0, 1.0));
        linear(Box::new(lfo(move |t| (a * t + b, a * t - b)) >> (pass() | sink())), &[], move |t| a * t + b, 200)
    };
    envelope2_linear: {
        let (a, b) = (f64_in(-8.0, 8.0), f32_in(-1.0, 1.0));
        let mut x = Vec::with_capacity(200);
        for _ in 0..200 {
            x.push(b);
        }
        let v = [x];
        if choose(2) == 0 {
            linear(Box::new(envelope2(move |t, x| a * t + x)), &v, move |t| a * t + b as f64, 200)
        } else {
            linear(Box::new(lfo2(move |t, x| a * t + x)), &v, move |t| a * t + b as f64, 200)
        }
    };
    envelope3_linear: {
        let (a, b) = (f64_in(-8.0, 8.0), f32_in(-1.0, 1.0));
        let mut x = Vec::with_capacity(200);
        for _ in 0..200 {
            x.push(b);
        }
        let v = [x.clone(), x];
        if choose(2) == 0 {
            linear(Box::new(envelope3(move |t, x, y| a * t + x - 0.5 * y)), &v, move |t| a * t + 0.5 * b as f64, 200)
        } else {
            linear(Box::new(envelope_in(move |t, x: &Frame<f32, U2>| a * t + x[0] as f64 - 0.5 * x[1] as f64)), &v, move |t| a * t + 0.5 * b as f64, 200)
        }
    };
    envelope_bounds: {
        // between samples of a bounded function
        let s = f64_in(-1.0, 1.0);
        let z = f64_in(-1.0, 1.0);
        let mut u = envelope(move |t| if ((t * 1000.0) as i64) % 2 == 0 { s } else { z });
        for _ in 0..300 {
            let y = u.get_mono() as f64;
            check((y >= s - 1e-4 || y >= z - 1e-4) && (y <= s + 1e-4 || y <= z + 1e-4), "envelope leaves the range of its function");
        }
    };
    adsr_gate: {
        // gate on at the start, released later; stages longer than the sampling interval
        let (a, d, r) = (0.02f64, 0.03f64, 0.04f64);
        let s = f64_in(0.0, 1.0);
        let mut u = adsr_live(a as f32, d as f32, s as f32, r as f32);
        let g = f32_in(0.001, 1.0);
        let off = f32_in(-1.0, 0.0);
        u.set_sample_rate(4000.0);
        for i in 0..600 {
            let t = i as f64 / 4000.0;
            let y = u.filter_mono(if i < 300 { g } else { off }) as f64;
            check(y >= -1e-5 && y <= 1.0001, "envelope leaves 0...1");
            if i < 300 {
                // interpolated from samples 1.5 ... 2.5 ms apart, so off by at most the change of slope
                close64(y, adsr_ref(a, d, s, t), 0.07, 0.0, "attack, decay and sustain");
                if t > 0.004 && t < 0.017 {
                    close64(y, t / a, 1e-3, 0.0, "attack");
                }
                if t > 0.054 {
                    close64(y, s, 1e-3, 0.0, "sustain");
                }
            } else {
                let q = t - 0.075;
                let v = if q < r { s * (1.0 - q / r) } else { 0.0 };
                close64(y, v, 0.15, 0.0, "release");
                if q > r + 0.006 {
                    close64(y, 0.0, 1e-4, 0.0, "released envelope");
                }
            }
        }
    };
    adsr_silent: {
        let r = [0.0, 0.01][choose(2)];
        let mut u = adsr_live(0.01, 0.01, f32_in(0.0, 1.0), r);
        let off = f32_in(-1.0, 0.0);
        u.set_sample_rate(4000.0);
        for _ in 0..200 {
            eq32(u.filter_mono(off), 0.0, "envelope sounds although it was not triggered");
        }
        // first note
        let mut y = 0.0;
        for _ in 0..200 {
            y = u.filter_mono(1.0);
        }
        check(y >= -0.001 && y <= 1.001, "envelope leaves 0...1");
        for _ in 0..100 {
            y = u.filter_mono(off);
        }
        close(y, 0.0, 1e-5, "released envelope");
    };
    adsr_clones: {
        // clones and resets do not disturb each other
        let s = f32_in(0.0, 1.0);
        let mut u = adsr_live(0.01, 0.01, s, 0.01);
        u.set_sample_rate(4000.0);
        let mut w = u.clone();
        for i in 0..120 {
            let y = u.filter_mono(1.0);
            eq32(w.filter_mono(0.0), 0.0, "clone of the envelope was triggered");
            if i > 100 {
                close(y, s, 1e-3, "sustain");
            }
        }
        let mut v = u.clone();
        v.filter_mono(0.0);
        for _ in 0..60 {
            v.filter_mono(0.0);
        }
        for _ in 0..60 {
            close(u.filter_mono(1.0), s, 1e-3, "sustain after release of a clone");
        }
        u.reset();
        let mut f = adsr_live(0.01, 0.01, s, 0.01);
        f.set_sample_rate(4000.0);
        for i in 0..120 {
            let g = if i < 60 { 1.0 } else { 0.0 };
            close(u.filter_mono(g), f.filter_mono(g), 1e-5, "envelope after reset");
        }
    };
}
