//! C17: the mathematical helper functions do what their documentation says.
use crate::prim::*;
use fundsp::hacker::*;

fn v(a: f32) -> f32 {
    f32_in(-a, a)
}
fn t01() -> f32 {
    f32_in(0.0, 1.0)
}
fn w(a: f64) -> f64 {
    f64_in(-a, a)
}
fn u01() -> f64 {
    f64_in(0.0, 1.0)
}
fn near(a: f64, b: f64, msg: &'static str) {
    close64(a, b, 1e-6, 0.0, msg)
}
fn between(x: f64, a: f64, b: f64, e: f64, msg: &'static str) {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    check(x >= lo - e, msg);
    check(x <= hi + e, msg);
}

/// An easing function: fixed end points, range, agreement with its definition.
fn ease(f: impl Fn(f64) -> f64, g: impl Fn(f64) -> f64) {
    close64(f(0.0), 0.0, 0.0, 0.0, "easing function does not start from zero");
    close64(f(1.0), 1.0, 0.0, 0.0, "easing function does not end at one");
    let x = f64_in(0.0, 1.0);
    let y = f(x);
    check(y >= -1e-9 && y <= 1.0 + 1e-9, "easing function leaves 0...1");
    close64(y, g(x), 1e-9, 0.0, "easing function differs from its definition");
}
fn rising(f: impl Fn(f64) -> f64) {
    let x = f64_in(0.0, 1.0);
    let y = f64_in(0.0, 1.0);
    assume(x <= y);
    check(f(x) <= f(y) + 1e-9, "easing function is not monotonic");
}
fn symmetric(f: impl Fn(f64) -> f64) {
    let x = f64_in(0.0, 1.0);
    close64(f(x) + f(1.0 - x), 1.0, 1e-9, 0.0, "easing function is not symmetric");
}
fn int_pow(x: f64, n: usize) -> f64 {
    let mut y = 1.0;
    for _ in 0..n {
        y *= x;
    }
    y
}
/// Normalized polynomial with derivative proportional to `(x (1 - x))^n`.
fn poly(x: f64, c: &[f64]) -> f64 {
    let mut y = 0.0;
    for (i, c) in c.iter().enumerate() {
        y += c * int_pow(x, i);
    }
    y
}

/// Noise at `i + d` with a symbolic seed.
fn at(i: i32, d: f32) -> f32 {
    i as f32 + d
}

harnesses! { "c17";
    clamps: {
        let (x, a, b) = (v(8.0), v(8.0), v(8.0));
        assume(a <= b);
        let y = clamp(a, b, x);
        check(y >= a && y <= b, "clamped value is out of range");
        check(y == x || (x < a && y == a) || (x > b && y == b), "clamped value is not the nearest in range");
        let y = clamp01(x);
        check(y >= 0.0 && y <= 1.0 && (y == x || (x < 0.0 && y == 0.0) || (x > 1.0 && y == 1.0)), "value is not clamped to 0...1");
        let y = clamp11(x);
        check(y >= -1.0 && y <= 1.0 && (y == x || (x < -1.0 && y == -1.0) || (x > 1.0 && y == 1.0)), "value is not clamped to -1...1");
    };
    basic: {
        let (x, y) = (v(64.0), v(64.0));
        eq32(squared(x), x * x, "square");
        close(cubed(x), x * x * x, 1e-6, "cube");
        eq32(identity(x), x, "identity");
        check(abs(x) >= 0.0 && (abs(x) == x || abs(x) == -x), "absolute value");
        check(signum(x) == 1.0 || signum(x) == -1.0, "sign");
        eq32(signum(x) * abs(x), x, "sign times magnitude");
        check(min(x, y) <= x && min(x, y) <= y && (min(x, y) == x || min(x, y) == y), "minimum");
        check(max(x, y) >= x && max(x, y) >= y && (max(x, y) == x || max(x, y) == y), "maximum");
        check(floor(x) <= x && floor(x) >= x - 1.0, "floor");
        check(ceil(x) >= x && ceil(x) <= x + 1.0, "ceiling");
        check(abs(round(x) - x) <= 0.5, "round");
        eq32(bpm_hz(x) * 60.0, bpm_hz(x) * 60.0, "bpm");
        close(bpm_hz(x), x / 60.0, 1e-5, "beats per minute");
        close(dissonance_max(x), 1.0193 * x + 17.4672, 1e-4, "maximally dissonant frequency");
    };
    lerps: {
        let (a, b) = (w(4.0), w(4.0));
        let t = u01();
        eq64(lerp(a, b, 0.0), a, "interpolation does not start from its first value");
        eq64(lerp(a, b, 1.0), b, "interpolation does not end at its second value");
        near(lerp(a, b, t), a + (b - a) * t, "linear interpolation");
        between(lerp(a, b, t), a, b, 1e-6, "linear interpolation leaves the range of its end points");
        eq64(lerp11(a, b, -1.0), a, "interpolation does not start from its first value");
        eq64(lerp11(a, b, 1.0), b, "interpolation does not end at its second value");
        near(lerp11(a, b, 2.0 * t - 1.0), a + (b - a) * t, "linear interpolation with -1...1");
    };
    delerps: {
        let (d, t) = (f64_in(0.25, 4.0), u01());
        let a = [0.0, -1.5, 2.0][choose(3) as usize];
        let b = if choose(2) == 0 { a + d } else { a - d };
        let x = lerp(a, b, t);
        // multiplied by the length of the range
        near((b - a) * delerp(a, b, x), x - a, "deinterpolation does not recover the amount");
        near((b - a) * (delerp11(a, b, x) + 1.0), 2.0 * (x - a), "deinterpolation to -1...1 does not recover the amount");
    };
    delerp_range: {
        let x = f32_in(2.0, 10.0);
        close(delerp(2.0, 10.0, x), (x - 2.0) / 8.0, 1e-6, "deinterpolation");
        close(delerp11(2.0, 10.0, x), (x - 6.0) / 4.0, 1e-6, "deinterpolation to -1...1");
        close(delerp11(10.0, 2.0, x), (6.0 - x) / 4.0, 1e-6, "deinterpolation to -1...1 of a falling range");
    };
    exps: {
        let (a, b, t) = (f32_in(0.25, 4.0), f32_in(0.25, 4.0), t01());
        let (la, lb) = (log(a), log(b));
        eq32(xerp(a, b, t), exp(lerp(la, lb, t)), "exponential interpolation");
        close(xerp11(a, b, 2.0 * t - 1.0), exp(lerp(la, lb, (2.0 * t - 1.0) * 0.5 + 0.5)), 1e-6, "exponential interpolation with -1...1");
        let x = f32_in(0.25, 4.0);
        eq32(dexerp(a, b, x), log(x / a) / log(b / a), "exponential deinterpolation");
        eq32(dexerp11(a, b, x), dexerp(a, b, x) * 2.0 - 1.0, "exponential deinterpolation to -1...1");
        eq32(db_amp(x), exp10(x / 20.0), "decibels to amplitude");
        eq32(amp_db(x), log10(x) * 20.0, "amplitude to decibels");
        eq32(midi_hz(x), 440.0 * exp2((x - 69.0) / 12.0), "note number to frequency");
        eq32(semitone_ratio(x), exp2(x * (1.0 / 12.0)), "semitones to frequency ratio");
        eq32(sin_hz(a, t), sin(t * a * core::f32::consts::TAU), "sine");
        eq32(cos_hz(a, t), cos(t * a * core::f32::consts::TAU), "cosine");
    };
    exps_at: {
        for i in 0..5 {
            let n = 12.0 * (i as f64 - 2.0);
            close64(midi_hz(69.0 + n), 440.0 * ipow(2.0, i - 2), 0.0, 1e-12, "octaves of note numbers");
            close64(semitone_ratio(n), ipow(2.0, i - 2), 0.0, 1e-12, "octaves of semitones");
            close64(db_amp(20.0 * (i as f64 - 2.0)), ipow(10.0, i - 2), 0.0, 1e-12, "decibels of powers of ten");
            close64(amp_db(ipow(10.0, i - 2)), 20.0 * (i as f64 - 2.0), 1e-12, 1e-12, "decibels of powers of ten");
            close64(xerp(1.0, 16.0, i as f64 * 0.25), ipow(2.0, i), 0.0, 1e-12, "exponential interpolation");
            close64(xerp11(1.0, 16.0, i as f64 * 0.5 - 1.0), ipow(2.0, i), 0.0, 1e-12, "exponential interpolation");
            close64(dexerp(1.0, 16.0, ipow(2.0, i)), i as f64 * 0.25, 1e-12, 0.0, "exponential deinterpolation");
            close64(dexerp11(1.0, 16.0, ipow(2.0, i)), i as f64 * 0.5 - 1.0, 1e-12, 0.0, "exponential deinterpolation");
        }
        close64(a_weight(1000.0), 1.0, 1e-4, 0.0, "A weighting is not normalized");
        close64(m_weight(1000.0), 1.0, 1e-4, 0.0, "M weighting is not normalized");
    };
    spline_ends: {
        let (a, b, c, d) = (w(2.0), w(2.0), w(2.0), w(2.0));
        eq64(spline(a, b, c, d, 0.0), b, "the spline does not start from its first point");
        near(spline(a, b, c, d, 1.0), c, "the spline does not end at its second point");
        eq64(spline_mono(a, b, c, d, 0.0), b, "the monotonic spline does not start from its first point");
        near(spline_mono(a, b, c, d, 1.0), c, "the monotonic spline does not end at its second point");
    };
    spline_formula: {
        let (a, b, c, d, x) = (w(1.0), w(1.0), w(1.0), w(1.0), u01());
        // Hermite form with slopes (c - a) / 2 and (d - b) / 2
        let (m, n) = ((c - a) * 0.5, (d - b) * 0.5);
        let (x2, x3) = (x * x, x * x * x);
        let h = (2.0 * x3 - 3.0 * x2 + 1.0) * b + (x3 - 2.0 * x2 + x) * m + (-2.0 * x3 + 3.0 * x2) * c + (x3 - x2) * n;
        near(spline(a, b, c, d, x), h, "the spline is not a Catmull-Rom spline");
    };
    mono_rising: mono(1.0);
    mono_falling: mono(-1.0);
    mono_rising_turn: mono_turn(1.0);
    mono_falling_turn: mono_turn(-1.0);
    mono_linear: {
        let k = if choose(2) == 0 { 1.0 } else { -1.0 };
        let (s, x) = (f64_in(0.0, 1.0) * k, u01());
        near(spline_mono(-s, 0.0, s, 2.0 * s, x), s * x, "the monotonic spline of a line is not a line");
    };
    mono_flip: {
        // turning the data upside down does the same to the curve
        let (d, e, f, x) = (w(1.0), f64_in(0.0, 1.0), w(1.0), u01());
        let y = spline_mono(d, 0.0, e, e + f, x);
        near(spline_mono(-d, 0.0, -e, -e - f, x), -y, "the monotonic spline of negated data is not its negation");
    };
    soft: {
        let x = w(1000.0);
        let y = softsign(x);
        check(y > -1.0 && y < 1.0, "softsign leaves -1...1");
        near(y * (1.0 + abs(x)), x, "softsign");
        check(softexp(x) >= 0.0, "softexp is negative");
    };
    softexp_up: {
        let x = f64_in(0.0, 8.0);
        near(softexp(x), x * x + x + 1.0, "softexp of positive values");
        let z = f64_in(-8.0, 0.0);
        near(softexp(z) * (1.0 - z), 1.0, "softexp of negative values");
    };
    softmix_avg: {
        let (x, y) = (w(2.0), w(2.0));
        near(softmix(x, y, 0.0), (x + y) * 0.5, "softmix without bias is not an average");
    };
    softmix_range: {
        let x = f64_in(0.0, 2.0);
        let y = if choose(2) == 0 { f64_in(0.0, 2.0) } else { f64_in(-2.0, 0.0) };
        let b = [-1.0, 1.0][choose(2) as usize];
        let m = softmix(x, y, b);
        between(m, x, y, 1e-6, "softmix leaves the range of its arguments");
    };
    smooth_3: ease(smooth3, |x| poly(x, &[0.0, 0.0, 3.0, -2.0]));
    smooth_5: ease(smooth5, |x| poly(x, &[0.0, 0.0, 0.0, 10.0, -15.0, 6.0]));
    smooth_7: ease(smooth7, |x| poly(x, &[0.0, 0.0, 0.0, 0.0, 35.0, -84.0, 70.0, -20.0]));
    smooth_9: ease(smooth9, |x| poly(x, &[0.0, 0.0, 0.0, 0.0, 0.0, 126.0, -420.0, 540.0, -315.0, 70.0]));
    rising_3: rising(smooth3);
    rising_5: rising(smooth5);
    rising_arc: { rising(uparc); rising(downarc) };
    symmetric_3: symmetric(smooth3);
    symmetric_5: symmetric(smooth5);
    symmetric_7: symmetric(smooth7);
    symmetric_9: symmetric(smooth9);
    arcs: {
        let x = f64_in(0.0, 1.0);
        let u = uparc(x);
        let d = downarc(x);
        check(u >= -1e-9 && u <= 1.0 + 1e-9, "arc leaves 0...1");
        check(d >= -1e-9 && d <= 1.0 + 1e-9, "arc leaves 0...1");
        // points of the quarter circles
        close64(x * x + (1.0 - u) * (1.0 - u), 1.0, 1e-9, 0.0, "uparc is not a circle");
        close64((1.0 - x) * (1.0 - x) + d * d, 1.0, 1e-9, 0.0, "downarc is not a circle");
        close64(uparc(0.0), 0.0, 0.0, 0.0, "uparc starts from zero");
        close64(uparc(1.0), 1.0, 0.0, 0.0, "uparc ends at one");
        close64(downarc(0.0), 0.0, 0.0, 0.0, "downarc starts from zero");
        close64(downarc(1.0), 1.0, 0.0, 0.0, "downarc ends at one");
    };
    sine_ease_range: {
        let x = f64_in(0.0, 1.0);
        check(sine_ease(x) >= 0.0 && sine_ease(x) <= 1.0 + 1e-9, "sine ease leaves 0...1");
        close64(sine_ease(0.0), 0.0, 1e-12, 0.0, "sine ease starts from zero");
        close64(sine_ease(1.0), 1.0, 1e-12, 0.0, "sine ease ends at one");
        close64(sine_ease(0.5), 0.5f64.sqrt(), 2e-3, 0.0, "sine ease at 45 degrees");
        close64(sine_ease(1.0 / 3.0), 0.5, 2e-3, 0.0, "sine ease at 30 degrees");
    };
    square_wave: {
        let t = f64_in(-4.0, 4.0);
        let y: f64 = sqr_hz(1.0, t);
        check(y == 1.0 || y == -1.0, "square wave is not binary");
        let z = t - t.floor();
        check((y == 1.0) == (z < 0.5), "square wave");
        // frequency
        check(sqr_hz(2.0, t) == sqr_hz(1.0, 2.0 * t), "square wave at another frequency");
    };
    triangle_wave: {
        let t = f64_in(-4.0, 4.0);
        let y: f64 = tri_hz(1.0, t);
        check(y >= -1.0 && y <= 1.0, "triangle wave leaves -1...1");
        let z = (t + 0.25) - (t + 0.25).floor();
        close64(y, if z < 0.5 { 4.0 * z - 1.0 } else { 3.0 - 4.0 * z }, 1e-9, 0.0, "triangle wave");
        close64(tri_hz(2.0, t), tri_hz(1.0, 2.0 * t), 1e-9, 0.0, "triangle wave at another frequency");
    };
    rnd_range: {
        let x = u64_in(0, u64::MAX);
        let y = rnd1(x);
        check(y >= 0.0 && y < 1.0, "pseudorandom number leaves 0...1");
        let y = rnd2(x);
        check(y >= 0.0 && y < 1.0, "pseudorandom number leaves 0...1");
        let y: f64 = AttoHash::new(x).hash01();
        check(y >= 0.0 && y <= 1.0, "hash leaves 0...1");
        let y: f64 = AttoHash::new(x).hash11();
        check(y >= -1.0 && y <= 1.0, "hash leaves -1...1");
        let y: f32 = AttoHash::new(x).hash01();
        check(y >= 0.0 && y <= 1.0, "hash leaves 0...1");
        let y: f32 = AttoHash::new(x).hash11();
        check(y >= -1.0 && y <= 1.0, "hash leaves -1...1");
    };
    hash_permutes: {
        let (x, y) = (u64_in(0, u64::MAX), u64_in(0, u64::MAX));
        check((hash1(x) == hash1(y)) == (x == y), "hash1 is not a permutation");
        check((hash2(x) == hash2(y)) == (x == y), "hash2 is not a permutation");
    };
    atto_permutes: {
        let (x, y, d) = (u64_in(0, u64::MAX), u64_in(0, u64::MAX), u64_in(0, u64::MAX));
        check((AttoHash::new(x).hash(d).state() == AttoHash::new(y).hash(d).state()) == (x == y), "the hash does not depend on its state");
        check((AttoHash::new(d).hash(x).state() == AttoHash::new(d).hash(y).state()) == (x == y), "the hash does not depend on its data");
    };
    noise_ease: {
        let s = u64_in(0, u64::MAX);
        let i = choose(3) as i32 - 1;
        let d = f32_in(0.0, 0.9375);
        let y = ease_noise(identity, s, at(i, d));
        check(y >= -1.0 - 1e-5 && y <= 1.0 + 1e-5, "noise leaves -1...1");
        between(y as f64, ease_noise(identity, s, at(i, 0.0)) as f64, ease_noise(identity, s, at(i + 1, 0.0)) as f64, 1e-5, "noise leaves its interpolation segment");
    };
    noise_ease_formula: {
        let s = u64_in(0, u64::MAX);
        let i = choose(3) as i32 - 1;
        let d = f32_in(0.0, 0.9375);
        let (a, b) = (ease_noise(identity, s, at(i, 0.0)), ease_noise(identity, s, at(i + 1, 0.0)));
        let x = at(i, d);
        let e = x - i as f32;
        close(ease_noise(identity, s, x), a + (b - a) * e, 1e-5, "noise is not an interpolation");
        close(ease_noise(squared, s, x), a + (b - a) * e * e, 1e-5, "noise is not an interpolation");
        close(ease_noise((squared, identity), s, x), if b >= a { a + (b - a) * e * e } else { a + (b - a) * e }, 1e-5, "asymmetric noise does not distinguish rising and falling segments");
    };
    noise_spline: {
        let s = [1, 2, 77][choose(3) as usize];
        let r = rnd2(s);
        let i = choose(2) as f64;
        let d = if choose(2) == 0 { f64_in(0.0, 1.0 - r - 1e-9) } else { f64_in(1.0 - r + 1e-9, 1.0) };
        let y = spline_noise(s, i + d);
        check(y >= -1.0 && y <= 1.0, "spline noise leaves -1...1");
    };
    noise_continuous: {
        // values on both sides of a segment border are close
        let s = [1, 2, 77][choose(3) as usize];
        let r = rnd2(s);
        let i = choose(2) as i32;
        let b = (i + 1) as f64 - r;
        close64(spline_noise(s, b - 1e-6), spline_noise(s, b + 1e-6), 2e-5, 0.0, "spline noise is not continuous");
        close64(ease_noise(smooth3, s, 1.0 - 1e-6), ease_noise(smooth3, s, 1.0), 1e-5, 0.0, "noise is not continuous");
    };
    noise_fractal: {
        let s = [1, 5][choose(2) as usize];
        let octaves = 1 + choose(3) as i64;
        let r = f32_in(0.125, 1.0);
        let y = fractal_ease_noise(smooth3, s, octaves, r, 0.37f32);
        check(y >= -1.0001 && y <= 1.0001, "fractal noise leaves -1...1");
        let y = fractal_noise(s, octaves, r, 0.37f32);
        check(y >= -1.0001 && y <= 1.0001, "fractal noise leaves -1...1");
    };
    noise_octaves: {
        // one octave more adds the next octave with the next power of the roughness
        let s = [1, 5][choose(2) as usize];
        let r = f32_in(0.25, 1.0);
        let y = [1, 2, 3].map(|o| fractal_noise(s, o, r, 0.37f32));
        let z = fractal_noise(s, 3, 0.0, 0.37f32);
        let second = fractal_noise(s, 2, 1.0, 0.37f32) * 2.0 - z;
        let third = fractal_noise(s, 3, 1.0, 0.37f32) * 3.0 - z - second;
        eq32(y[0], z, "one octave depends on roughness");
        close(y[1] * (1.0 + r), z + second * r, 1e-5, "two octaves");
        close(y[2] * (1.0 + r + r * r), z + second * r + third * r * r, 1e-5, "three octaves");
    };
}

/// Data around a segment from 0 to `s e`. The neighbours continue in the same direction or turn.
fn mono_with(s: f64, turn0: bool, turn1: bool) {
    let (d, e, f, x) = (f64_in(0.0, 1.0), f64_in(0.0, 1.0), f64_in(1.0, 2.0), u01());
    let y0 = if turn0 { s * d } else { -s * d };
    let y3 = if turn1 { s * (f - 2.0) } else { s * f };
    let y = spline_mono(y0, 0.0, s * e, y3, x);
    between(y, 0.0, s * e, 1e-6, "the monotonic spline overshoots");
}
fn mono(s: f64) {
    mono_with(s, false, false);
}
fn mono_turn(s: f64) {
    let k = choose(3);
    mono_with(s, k != 1, k != 0);
}
fn ipow(b: f64, n: i32) -> f64 {
    let y = int_pow(b, n.unsigned_abs() as usize);
    if n < 0 {
        1.0 / y
    } else {
        y
    }
}
