//! C16: oscillators and noise generators follow their phase, frequency and seed exactly.
use crate::prim::*;
use crate::util::*;
use fundsp::hacker::*;
use fundsp::noise::MlsState;
use fundsp::oscillator::*;
use fundsp::wavetable::*;
use fundsp::Real;

const N: usize = 6;

/// The phase accumulator: starts at `p`, advances by frequency / sample rate, wraps to 0...1.
struct Phase {
    p: f64,
    d: f64,
}
impl Phase {
    fn new(p: f32, sr: f64) -> Self {
        Phase { p: p as f64, d: 1.0 / sr }
    }
    fn next(&mut self, f: f32) -> f64 {
        let p = self.p;
        let q = p + f as f64 * self.d;
        self.p = q - q.floor();
        p
    }
}
fn rates() -> f64 {
    [44100.0, 96000.0, 8000.0][choose(3)]
}
fn blep(t: f64, dt: f64) -> f64 {
    if t < dt {
        let z = t / dt;
        -(1.0 - z) * (1.0 - z)
    } else if t > 1.0 - dt {
        let z = (1.0 - t) / dt;
        (1.0 - z) * (1.0 - z)
    } else {
        0.0
    }
}
/// Runs an oscillator with an audio rate frequency against a function of phase and increment.
/// `lo == hi`: the frequency is 1 to 5 times `lo` times the sample rate.
fn osc(mut u: Box<dyn AudioUnit>, p0: f32, lo: f32, hi: f32, n: usize, w: impl Fn(f64, f64) -> f32) {
    let sr = rates();
    u.set_sample_rate(sr);
    let mut ph = Phase::new(p0, sr);
    let mut o = [0.0];
    for i in 0..n {
        let f = if lo == hi { f32_in(lo * sr as f32, 5.0 * lo * sr as f32) } else { f32_in(lo, hi) };
        u.tick(&[f], &mut o);
        let p = ph.next(f);
        close(o[0], w(p, f as f64 * ph.d), 3.0e-4, "waveform of the accumulated phase");
        if i + 1 == n {
            u.reset();
            u.tick(&[f], &mut o);
            close(o[0], w(p0 as f64, f as f64 * ph.d), 3.0e-4, "initial phase after reset");
        }
    }
}
fn start() -> f32 {
    [0.0, 0.25, 0.625, 0.96875][choose(4)]
}
/// Single sample at a symbolic phase and frequency up to the Nyquist rate: range of the output.
fn range(mk: impl FnOnce(f32) -> Box<dyn AudioUnit>, two: bool) {
    let (p, f) = match choose(4) {
        0 => (f32_in(0.0, 0.9999), f32_in(4000.0, 22050.0)),
        1 => (f32_in(0.2, 0.8), f32_in(100.0, 4000.0)),
        2 => (f32_in(0.0, 0.03), f32_in(200.0, 2000.0)),
        _ => (f32_in(0.97, 0.9999), f32_in(200.0, 2000.0)),
    };
    let mut u = mk(p);
    let mut o = [0.0];
    if two {
        let w = f32_in(0.0, 1.0);
        u.tick(&[f, w], &mut o);
    } else {
        u.tick(&[f], &mut o);
    }
    check(o[0] >= -1.0001 && o[0] <= 1.0001, "waveform in -1...1");
}
fn dsf_ref(p: f32, f: f32, r: f32, spacing: f32) -> f32 {
    // sum of r^i sin(phase (1 + i spacing)) over the partials up to 22050 Hz
    let n = (22050.0 / f / spacing).floor() as usize;
    let (mut s, mut a) = (0.0f64, 1.0f64);
    for i in 0..=n {
        s += a * sin(p as f64 * f64::TAU * (1.0 + i as f64 * spacing as f64));
        a *= r as f64;
    }
    s as f32
}
/// A concrete frequency and phase, symbolic roughness.
fn dsf_partials(square: bool, input: bool) {
    let f = [5000.0, 11025.0, 7000.0, 23000.0][choose(4) ];
    let p = [0.0, 0.25, 0.40625][choose(3)];
    let r = f32_in(0.0001, 0.95);
    let k = if square { 2.0 } else { 1.0 };
    let mut o = [0.0];
    let mut u: Box<dyn AudioUnit> = match (square, input) {
        (false, false) => Box::new(dsf_saw_r(r).phase(p)),
        (true, false) => Box::new(dsf_square_r(r).phase(p)),
        (false, true) => Box::new(dsf_saw().phase(p)),
        (true, true) => Box::new(dsf_square().phase(p)),
    };
    let mut ph = Phase::new(p, 44100.0);
    ph.next(f);
    for _ in 0..3 {
        if input {
            u.tick(&[f, r], &mut o);
        } else {
            u.tick(&[f], &mut o);
        }
        close(o[0], dsf_ref(ph.next(f) as f32, f, r, k), 2.0e-3, "sum of partials");
    }
}
/// Roughness may be anything in 0...1: the output stays finite.
fn dsf_finite(square: bool) {
    let f = [11025.0, 441.0, 100.0][choose(3)];
    let r = f32_in(0.0, 1.0);
    // the first output is at phase zero
    let p = 1.0 - f / 44100.0;
    let mut u: Box<dyn AudioUnit> = if square { Box::new(dsf_square().phase(p)) } else { Box::new(dsf_saw().phase(p)) };
    let mut o = [0.0];
    for _ in 0..2 {
        u.tick(&[f, r], &mut o);
        check(o[0].is_finite(), "finite output");
    }
}
fn sine_table() -> Wavetable {
    Wavetable::new(100.0, 12800.0, 1.0, &|_| 0.0, &|p, i| if i == 1 { p } else { 0.0 })
}
/// Tables are chosen and mixed by frequency: with one partial of an amplitude proportional to pitch,
/// the amplitude read is proportional to frequency.
fn table_choice() {
    let t = sine_table();
    let hint = choose(6) as usize;
    let f = f32_in(100.0, 3200.0);
    let k = choose(5) as usize;
    let p = [0.0, 0.25, 0.5, 0.75, 1.0][k];
    let (v, _) = t.read(hint, f, p);
    let m = [0.0, 1.0, 0.0, -1.0, 0.0][k];
    close(v, m * f * (2.0 / 12800.0), 1.0e-2, "table mix by frequency");
    let (w, _) = t.read_simd(hint, f, F32x::splat(p));
    close(w.as_array_ref()[3], m * f * (2.0 / 12800.0), 1.0e-2, "table mix by frequency (vector)");
}
/// Any frequency and any previously used table: no fault, and the same value.
fn table_hint() {
    let t = sine_table();
    let f = f32_in(0.0, 100000.0);
    let (a, h) = t.read(0, f, 0.3);
    check(h <= 5, "table in range");
    let (b, _) = t.read(1 + choose(5) as usize, f, 0.3);
    let (c, g) = t.read(h, f, 0.3);
    close(a, b, 1.0e-5, "value depends on the previous table");
    close(a, c, 1.0e-5, "value depends on the previous table");
    check(g <= 5, "table in range");
    check(a <= 1.0 && a >= -1.0, "range");
}
/// A wavetable made from partials or from a wave reproduces the wave.
fn table_shape(from: bool) {
    let f = f32_in(80.0, 1500.0);
    // partials 1 and 2 are present in all tables used here
    let wave = |p: f32| 0.5 * sin(p * f32::TAU) + 0.25 * sin((2.0 * p + 0.125) * f32::TAU);
    let t = if from {
        let w: Vec<f32> = (0..64).map(|i| wave(i as f32 / 64.0)).collect();
        Wavetable::from_wave(100.0, 6400.0, 1.0, &w)
    } else {
        Wavetable::new(100.0, 6400.0, 1.0, &|i| if i == 2 { 0.125 } else { 0.0 }, &|_, i| {
            if i == 1 {
                0.5
            } else if i == 2 {
                0.25
            } else {
                0.0
            }
        })
    };
    let mut peak = 0.0f32;
    for i in 0..256 {
        let v = wave(i as f32 / 256.0).abs();
        if v > peak {
            peak = v;
        }
    }
    let p = choose(16) as f32 / 16.0;
    close(t.read(choose(2) as usize, f, p).0, wave(p) / peak, 2.0e-2, "shape of the wave");
}
/// Phase and audio outputs of the wavetable synthesizer.
fn synth() {
    let t = std::sync::Arc::new(sine_table());
    let sr = rates();
    let p0 = [0.0, 0.3125, 0.9375][choose(3)];
    let mut u = An(WaveSynth::<U2>::new(t.clone())).phase(p0);
    u.set_sample_rate(sr);
    let f = [1000.0, 2000.0, -500.0, 250.0][choose(4) ];
    let g = f32_in(100.0, 3000.0);
    let mut p = p0;
    for i in 0..10 {
        let x = if i == 9 { g } else { f };
        let y = u.tick(&Frame::from([x]));
        p += x * (1.0 / sr as f32);
        p -= p.floor();
        close(y[1], p, 1.0e-5, "phase output");
        if i < 9 {
            close(y[0], t.read(0, x.abs(), p).0, 1.0e-4, "table at phase");
        }
    }
}
/// Every waveform starts where its phase says: the wave at phase 0...1 in steps, against the series.
fn series(t: std::sync::Arc<Wavetable>, wave: impl Fn(f32) -> f32) {
    // hundreds of partials: the ideal shape away from its jumps
    let f = f32_in(60.0, 80.0);
    let k = choose(6);
    let q = [0.0625, 0.125, 0.1875, 0.3125, 0.6875, 0.875][k];
    // the normalisation is common to all tables: compare ratios
    let v = t.read(0, f, q).0;
    let z = t.read(0, f, 0.25).0;
    check(z > 0.2 && z <= 1.0, "waveform in -1...1, positive in the first half");
    close(v * wave(0.25), z * wave(q), 2.0e-2, "shape of the waveform");
}
fn holder(v: f32, f: f32) {
    let sr = 1000.0;
    let n = 24;
    let mut u = hold(v);
    u.set_sample_rate(sr);
    let (mut last, mut at) = (0.0f32, 0usize);
    for i in 0..n {
        // samples are distinguishable
        let x = f32_in(i as f32, i as f32 + 0.5);
        let y = u.tick(&Frame::from([x, f]))[0];
        let (lo, hi) = ((1.0 - v) as f64 * sr / f as f64, (1.0 + v) as f64 * sr / f as f64);
        let held = (i - at) as f64;
        if i == 0 {
            eq32(y, x, "first sample is taken");
            last = x;
        } else if held < lo - 0.01 {
            eq32(y, last, "held");
        } else if held > hi + 1.01 {
            check(false, "held too long");
        } else if v == 0.0 {
            // the hold time has passed
            if held >= hi - 0.01 {
                eq32(y, x, "new sample taken on time");
                last = x;
                at = i;
            } else {
                eq32(y, last, "held");
            }
        } else {
            check(y == x || y == last, "output is the held or the current sample");
            if y == x {
                last = x;
                at = i;
            }
        }
    }
}
/// Linear response of the plucked string to excitation.
fn string(f: f32, damping: f32) {
    let sr = 44100.0;
    let g = 0.5f32;
    let mut u = pluck(f, g, damping);
    u.set_sample_rate(sr);
    let mut quiet = u.clone();
    let total = sr / f as f64 - 1.0;
    let len = (total - 0.2).floor();
    let mut fir = fir3(1.0 - damping);
    let mut tune = allpole_delay((total - len) as f32);
    let gain = pow(g as f64, 1.0 / f as f64) as f32;
    let mut line = [0.0f32; 64];
    let mut pos = 0;
    for _ in 0..20 {
        let x = f32_in(-1.0, 1.0);
        let a = u.tick(&Frame::from([x]))[0];
        let b = quiet.tick(&Frame::from([0.0]))[0];
        let y = fir.tick(&Frame::from([line[pos] * gain + x]));
        let y = tune.filter(y[0]);
        line[pos] = y;
        pos = (pos + 1) % len as usize;
        close(a - b, y, 1.0e-4, "response to excitation");
    }
}
struct Pole {
    a: f32,
    x: f32,
    y: f32,
}
fn allpole_delay(d: f32) -> Pole {
    Pole { a: (1.0 - d) / (1.0 + d), x: 0.0, y: 0.0 }
}
impl Pole {
    /// y[n] = a (x[n] - y[n - 1]) + x[n - 1]
    fn filter(&mut self, x: f32) -> f32 {
        let y = self.a * (x - self.y) + self.x;
        self.x = x;
        self.y = y;
        y
    }
}
/// Maximum length sequences: the state of `n` bits is what the next `n` values say.
fn bits(mut m: MlsState, n: u32) -> (u32, MlsState) {
    let mut s = 0;
    for _ in 0..n {
        s = (s << 1) | m.value();
        m = m.next();
    }
    (s, m)
}
fn mls_state(lo: u32, hi: u32) {
    let n = lo as u32 + choose((hi - lo + 1) as usize) as u32;
    let len = (1u64 << n) - 1;
    let a = u64_in(0, len - 1) as u32;
    let b = u64_in(0, len - 1) as u32;
    let m = MlsState::new_with_seed(n, a);
    let k = MlsState::new_with_seed(n, b);
    check(m.length() == (1u32 << n) - 1, "length");
    let (s, m2) = bits(m, n);
    let (t, k2) = bits(k, n);
    check(s != 0, "a sequence is never all zeros");
    let (s2, _) = bits(m2, n);
    let (t2, _) = bits(k2, n);
    check((s == t) == (s2 == t2), "different states have different successors");
}
/// The period is exactly 2^n - 1: the step, a linear map over bits, has that order.
fn mls_period(lo: u32, hi: u32) {
    let n = lo as u32 + choose((hi - lo + 1) as usize) as u32;
    let mut m = [0u32; 32];
    for i in 0..n {
        // state 1 << i
        let st = MlsState::new_with_seed(n, (1u32 << i) - 1);
        check(bits(st, n).0 == 1u32 << i, "state from seed");
        m[i as usize] = bits(st.next(), n).0;
    }
    let apply = |m: &[u32; 32], s: u32| {
        let mut r = 0;
        for i in 0..n {
            if s >> i & 1 == 1 {
                r ^= m[i as usize];
            }
        }
        r
    };
    let mul = |a: &[u32; 32], b: &[u32; 32]| {
        let mut r = [0u32; 32];
        for i in 0..n as usize {
            r[i] = apply(a, b[i]);
        }
        r
    };
    // linearity on every state
    let seed = u64_in(0, u32::MAX as u64) as u32;
    let st = MlsState::new_with_seed(n, seed);
    let s = bits(st, n).0;
    let mut r = 0;
    for i in 0..n {
        r ^= m[i as usize] & 0u32.wrapping_sub(s >> i & 1);
    }
    check(bits(st.next(), n).0 == r, "step is linear");
    let power = |mut e: u32| {
        let mut r = [0u32; 32];
        for i in 0..n {
            r[i as usize] = 1 << i;
        }
        let mut b = m;
        while e > 0 {
            if e & 1 == 1 {
                r = mul(&b, &r);
            }
            b = mul(&b, &b);
            e >>= 1;
        }
        let mut id = true;
        for i in 0..n {
            id &= r[i as usize] == 1 << i;
        }
        id
    };
    let len = (1u32 << n) - 1;
    check(power(len), "the sequence repeats after its length");
    let mut rest = len;
    let mut q = 2;
    while rest > 1 {
        if q * q > rest {
            q = rest;
        }
        if rest % q == 0 {
            while rest % q == 0 {
                rest /= q;
            }
            if len / q < len {
                check(!power(len / q), "the sequence does not repeat earlier");
            }
        }
        q += 1;
    }
}
fn noise_range() {
    let s = u64_in(0, u64::MAX);
    let mut u = noise().seed(s);
    for _ in 0..3 {
        let y = u.get_mono();
        check(y >= -1.0 && y <= 1.0, "noise in -1...1");
    }
}
fn mls_values() {
    let s = u64_in(0, u64::MAX);
    let mut u = mls_bits(1 + choose(31) as u64).seed(s);
    for _ in 0..4 {
        let y = u.get_mono();
        check(y == -1.0 || y == 1.0, "binary noise");
    }
}
fn chaos(lorenz_: bool) {
    let sr = rates();
    let mut u: Box<dyn AudioUnit> = if lorenz_ { Box::new(lorenz()) } else { Box::new(rossler()) };
    u.set_sample_rate(sr);
    u.reset();
    let f = f32_in(0.0, 2000.0);
    let mut o = [0.0];
    u.tick(&[0.0], &mut o);
    let z = if lorenz_ { 0.05107 } else { 0.05757 };
    let (mut x, mut y, mut w) = (o[0] / z, 1.0f32, 1.0f32);
    for _ in 0..3 {
        u.tick(&[f], &mut o);
        let (dx, dy, dw, dt) = if lorenz_ {
            (10.0 * (y - x), x * (28.0 - w) - y, x * y - 8.0 / 3.0 * w, f / sr as f32)
        } else {
            (-y - w, x + 0.15 * y, 0.2 + w * (x - 10.0), 2.91 * f / sr as f32)
        };
        x += dx * dt;
        y += dy * dt;
        w += dw * dt;
        close(o[0], x * z, 1.0e-3, "dynamical system");
    }
}

harnesses! { "c16";
    sine: { let p = start(); osc(Box::new(An(Sine::<f64>::with_phase(p))), p, -20000.0, 20000.0, N, |p, _| sin(p as f32 * f32::TAU)) };
    sine_set: { let p = start(); osc(Box::new(sine().phase(p)), p, 0.0, 4000.0, N, |p, _| sin(p as f32 * f32::TAU)) };
    ramp: { let p = start(); osc(Box::new(An(Ramp::<f64>::with_phase(p))), p, -20000.0, 20000.0, N, |p, _| p as f32) };
    ramp_set: { let p = start(); osc(Box::new(ramp().phase(p)), p, 0.0, 4000.0, N, |p, _| p as f32) };
    poly_saw: { let p = start(); osc(Box::new(An(PolySaw::<f64>::with_phase(p))), p, 0.04, 0.04, 2, |p, d| (2.0 * p - 1.0 - blep(p, d)) as f32) };
    poly_square: { let p = start(); osc(Box::new(An(PolySquare::<f64>::with_phase(p))), p, 0.04, 0.04, 2, |p, d| {
        let h = p - 0.5;
        ((if p < 0.5 { 1.0 } else { -1.0 }) + blep(p, d) - blep(h - h.floor(), d)) as f32
    }) };
    poly_saw_range: range(|p| Box::new(An(PolySaw::<f64>::with_phase(p))), false);
    poly_square_range: range(|p| Box::new(An(PolySquare::<f64>::with_phase(p))), false);
    poly_pulse_range: range(|p| Box::new(An(PolyPulse::<f64>::with_phase(p))), true);
    poly_pulse: {
        let p = start();
        let w = f32_in(0.2, 0.8);
        osc(Box::new((pass() | dc(w)) >> An(PolyPulse::<f64>::with_phase(p))), p, 0.04, 0.04, 2, move |p, d| {
            let h = p - w as f64;
            ((if p < w as f64 { 1.0 } else { -1.0 }) + blep(p, d) - blep(h - h.floor(), d)) as f32
        })
    };
    ramp_range: {
        let mut u = An(Ramp::<f64>::with_phase(f32_in(0.0, 1.0)));
        for _ in 0..3 {
            let f = f32_in(-100000.0, 100000.0);
            let y = u.tick(&Frame::from([f]))[0];
            check(y >= 0.0 && y <= 1.0, "ramp in 0...1");
        }
    };
    dsf_saw_sum: dsf_partials(false, false);
    dsf_square_sum: dsf_partials(true, false);
    dsf_saw_in: dsf_partials(false, true);
    dsf_square_in: dsf_partials(true, true);
    dsf_saw_finite: dsf_finite(false);
    dsf_square_finite: dsf_finite(true);
    table_choice: table_choice();
    table_hint: table_hint();
    table_new: table_shape(false);
    table_wave: table_shape(true);
    synth: synth();
    saw_shape: series(saw_table(), |p| if p < 0.5 { 2.0 * p } else { 2.0 * p - 2.0 });
    square_shape: series(square_table(), |p| if p < 0.5 { 1.0 } else { -1.0 });
    triangle_shape: series(triangle_table(), |p| if p < 0.25 { 4.0 * p } else if p < 0.75 { 2.0 - 4.0 * p } else { 4.0 * p - 4.0 });
    hold0: holder(0.0, 250.0);
    hold1: holder(0.0, 300.0);
    hold2: holder(0.5, 250.0);
    hold3: holder(1.0, 200.0);
    pluck0: string(4410.0, 0.5);
    pluck1: string(6000.0, 0.1);
    mls_small: mls_state(1, 8);
    mls_mid: mls_state(9, 20);
    mls_large: mls_state(21, 31);
    mls_period_a: mls_period(1, 12);
    mls_period_b: mls_period(13, 24);
    mls_period_c: mls_period(25, 31);
    mls_values: mls_values();
    noise_range: noise_range();
    rossler: chaos(false);
    lorenz: chaos(true);
}
