//! C21: playback, resampling, oversampling and spectral resynthesis reproduce the signal they are given.
use crate::prim::*;
use crate::util::*;
use fundsp::fft::*;
use fundsp::hacker::*;
use num_complex::Complex32;
use std::sync::Arc;

fn symbolic(n: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(f32_in(-1.0, 1.0));
    }
    v
}
fn wave(ch: usize, n: usize) -> (Arc<Wave>, Vec<Vec<f32>>) {
    let mut w = Wave::with_capacity(0, 44100.0, n);
    let mut d = vec![];
    for _ in 0..ch {
        let v = symbolic(n);
        w.push_channel(&v);
        d.push(v);
    }
    (Arc::new(w), d)
}
/// Index played at step `i`, if any.
fn model(i: usize, start: usize, end: usize, lp: Option<usize>) -> Option<usize> {
    let mut k = start;
    for _ in 0..i {
        if k < end {
            k += 1;
            if k == end {
                if let Some(p) = lp {
                    k = p;
                }
            }
        }
    }
    if k < end {
        Some(k)
    } else {
        None
    }
}
fn player(full: bool) {
    let (w, d) = wave(2, 5);
    let ch = choose(2);
    let (start, end, lp) = if full {
        (0, 5, [None, Some(0), Some(2), Some(4), Some(5)][choose(5)])
    } else {
        (choose(6), choose(6), [None, Some(0), Some(1), Some(3), Some(5)][choose(5)])
    };
    let mut u = if full { wavech(&w, ch, lp) } else { wavech_at(&w, ch, start, end, lp) };
    let m = choose(3);
    for round in 0..2 {
        let mut k = 0;
        let mut step = |y: f32| {
            match model(k, start, end, lp) {
                Some(i) => eq32(y, d[ch][i], "sample of the wave"),
                None => check(y == 0.0, "silence after the end"),
            }
            k += 1;
        };
        if m == 0 || round == 1 {
            for _ in 0..12 {
                step(u.get_mono());
            }
        } else {
            let sizes: &[usize] = if m == 1 { &[12] } else { &[3, 8, 1] };
            let mut b = BufferVec::new(1);
            for s in sizes {
                u.process(*s, &BufferRef::empty(), &mut b.buffer_mut());
                for i in 0..*s {
                    step(b.at_f32(0, i));
                }
            }
        }
        u.reset();
    }
}
fn cubic(y0: f32, y1: f32, y2: f32, y3: f32, x: f32) -> f32 {
    let (a, b) = ((y2 - y0) * 0.5, (y3 - y1) * 0.5);
    let (x2, x3) = (x * x, x * x * x);
    (2.0 * x3 - 3.0 * x2 + 1.0) * y1 + (x3 - 2.0 * x2 + x) * a + (3.0 * x2 - 2.0 * x3) * y2 + (x3 - x2) * b
}
/// The resampler at concrete speeds: position starts at sample 1 and moves by the speed before every output.
fn resampled(speeds: &[f32], n: usize, len: usize) {
    let (w, d) = wave(2, len);
    let at = |c: usize, i: usize| if i < len { d[c][i] } else { 0.0 };
    let mut u = resample(wavech(&w, 0, None) | wavech(&w, 1, None));
    for round in 0..2 {
        let mut p = 1.0f64;
        for i in 0..n {
            let s = speeds[i % speeds.len()];
            let y = u.tick(&Frame::from([s]));
            if s > 0.0 {
                p += s as f64;
            }
            let k = p.floor() as usize;
            let x = (p - p.floor()) as f32;
            for c in 0..2 {
                close(y[c], cubic(at(c, k - 1), at(c, k), at(c, k + 1), at(c, k + 2), x), 1.0e-5, "interpolated sample");
            }
        }
        if round == 0 {
            u.reset();
        }
    }
}
/// A symbolic fraction within one sample period.
fn resampled_between() {
    let (w, d) = wave(1, 8);
    let mut u = resample(wavech(&w, 0, None));
    let k = choose(3);
    let x = f32_in(0.0625, 0.9375);
    let s = k as f32 + x;
    let y = u.tick(&Frame::from([s]))[0];
    close(y, cubic(d[0][k], d[0][k + 1], d[0][k + 2], d[0][k + 3], x), 1.0e-5, "interpolated sample");
    // standing still
    let z = u.tick(&Frame::from([0.0]))[0];
    close(y, z, 1.0e-6, "speed zero");
    let z = u.tick(&Frame::from([-1.0]))[0];
    close(y, z, 1.0e-6, "negative speed is speed zero");
    // back onto a sample
    let z = u.tick(&Frame::from([1.0 - x]))[0];
    close(z, d[0][k + 2], 1.0e-4, "sample");
}
/// Impulse responses of a 2x oversampled node at two phases of its internal buffers are the same, and the response
/// to any signal is their superposition.
fn oversampled(mk: impl Fn() -> Box<dyn AudioUnit>, n: usize, skip: usize, gain: f32) {
    let mut h = vec![];
    let mut u = mk();
    let mut o = [0.0];
    let mut sum = 0.0;
    for i in 0..60 {
        u.tick(&[if i == 0 { 1.0 } else { 0.0 }], &mut o);
        h.push(o[0]);
        sum += o[0];
    }
    close(sum, gain, 1.0e-2, "unity gain at DC");
    check(h[59].abs() < 1.0e-3, "response dies out");
    let mut u = mk();
    for _ in 0..skip {
        u.tick(&[0.0], &mut o);
        check(o[0] == 0.0, "silence");
    }
    let x = symbolic(n);
    for i in 0..n {
        u.tick(&[x[i]], &mut o);
        let mut w = 0.0;
        for k in 0..=i {
            if k < 60 {
                w += x[i - k] * h[k];
            }
        }
        close(o[0], w, 1.0e-3, "superposition of impulse responses");
    }
    u.reset();
    for i in 0..6 {
        u.tick(&[x[i]], &mut o);
        let mut w = 0.0;
        for k in 0..=i {
            w += x[i - k] * h[k];
        }
        close(o[0], w, 1.0e-3, "response after reset");
    }
}
/// The enclosed node runs twice per sample at twice the rate.
fn oversampled_rate() {
    let sr = [44100.0, 48000.0, 96000.0][choose(3)];
    let mut u = oversample(An(fundsp::oscillator::Ramp::<f64>::with_phase(0.0)));
    u.set_sample_rate(sr);
    let f = 0.001 * sr as f32;
    // a slow ramp passes the filter; the slope per output sample is f / sr
    let mut v = vec![];
    for _ in 0..100 {
        v.push(u.tick(&Frame::from([f]))[0]);
    }
    close(v[99] - v[79], 0.02, 1.0e-3, "ramp speed");
    let g = f32_in(-1.0, 1.0);
    let mut w = oversample(mul(2.0)) ;
    for _ in 0..3 {
        let _ = w.tick(&Frame::from([g]));
    }
}
fn resynthesized(len: usize, n: usize, skip: usize) {
    let mut u = resynth::<U1, U1, _>(len, |w| w.forward(0, 0));
    for _ in 0..skip {
        check(u.tick(&Frame::from([0.0]))[0] == 0.0, "silence");
    }
    let x = symbolic(n);
    let mut y = vec![];
    for i in 0..n {
        y.push(u.tick(&Frame::from([x[i]]))[0]);
    }
    for i in 0..n {
        if i < len {
            if skip == 0 {
                close(y[i], 0.0, 1.0e-6, "nothing before the latency has passed");
            }
        } else if skip > len || i >= 2 * len {
            close(y[i], x[i - len], 1.0e-4, "input one window length ago");
        }
    }
    u.reset();
    for i in 0..len + 2 {
        let z = u.tick(&Frame::from([x[i]]))[0];
        if skip == 0 {
            close(z, y[i], 1.0e-5, "output after reset");
        }
    }
}
fn resynth_channels() {
    // outputs: second input, silence, sum of both
    let len = 8;
    let mut u = resynth::<U2, U3, _>(len, |w| {
        w.forward(1, 0);
        for i in 0..w.bins() {
            w.set(2, i, w.at(0, i) + w.at(1, i));
        }
    });
    let (a, b) = (symbolic(24), symbolic(24));
    for i in 0..24 {
        let y = u.tick(&Frame::from([a[i], b[i]]));
        if i >= 2 * len {
            close(y[0], b[i - len], 1.0e-4, "forwarded channel");
            close(y[1], 0.0, 1.0e-6, "unset channel is silent");
            close(y[2], a[i - len] + b[i - len], 1.0e-4, "sum of channels");
        }
    }
}
fn resynth_times() {
    // the callback sees windows in order, a quarter of a window apart
    let len = [4, 8, 16][choose(3)];
    let times = Arc::new(std::sync::Mutex::new(Vec::<(f64, f64, f64)>::with_capacity(64)));
    let t = times.clone();
    let mut u = resynth::<U1, U1, _>(len, move |w| t.lock().unwrap().push((w.time(), w.time_at(0), w.delta_time())));
    let sr = 1000.0;
    u.set_sample_rate(sr);
    for _ in 0..len * 4 {
        let _ = u.tick(&Frame::from([0.0]));
    }
    let t = times.lock().unwrap();
    check(t.len() == 13, "number of windows");
    for i in 0..t.len() {
        let begin = (i * len / 4) as f64 / sr;
        close64(t[i].1, begin, 1.0e-9, 0.0, "beginning of the window");
        close64(t[i].0, begin + len as f64 * 0.5 / sr, 1.0e-9, 0.0, "center of the window");
        close64(t[i].2, len as f64 / 4.0 / sr, 1.0e-6, 0.0, "time between windows");
    }
}
/// Forward transform against the definition.
fn forward_fft(n: usize) {
    let x = symbolic(n);
    let mut d = x.clone();
    d.push(0.0);
    d.push(0.0);
    let _ = real_fft(&mut d[..n]);
    fix_nyquist(&mut d);
    for k in 0..=n / 2 {
        let (mut re, mut im) = (0.0f64, 0.0f64);
        for i in 0..n {
            let w = f64::TAU * ((k * i) % n) as f64 / n as f64;
            re += x[i] as f64 * cos(w);
            im -= x[i] as f64 * sin(w);
        }
        close(d[2 * k], re as f32, 1.0e-4, "real part of the spectrum");
        close(d[2 * k + 1], im as f32, 1.0e-4, "imaginary part of the spectrum");
    }
}
/// Forward and inverse transform of a real signal.
fn round_trip(n: usize) {
    let x = symbolic(n);
    let mut d = x.clone();
    d.push(0.0);
    d.push(0.0);
    let _ = real_fft(&mut d[..n]);
    fix_nyquist(&mut d);
    let mut c = vec![Complex32::new(0.0, 0.0); n];
    for i in 0..=n / 2 {
        c[i] = Complex32::new(d[2 * i], d[2 * i + 1]);
    }
    fix_negative(&mut c);
    inverse_fft(&mut c);
    for i in 0..n {
        close(c[i].re, x[i], 1.0e-4, "round trip");
        close(c[i].im, 0.0, 1.0e-4, "real signal");
    }
}

harnesses! { "c21";
    wavech: player(true);
    wavech_at: player(false);
    resample_one: resampled(&[1.0], 12, 10);
    resample_mixed: resampled(&[0.5, 0.25, 1.75, 0.0, 2.5, -1.0], 18, 18);
    resample_fast: resampled(&[3.5, 40.0, 97.25], 6, 300);
    resample_wrap: resampled(&[0.75], 190, 150);
    resample_between: resampled_between();
    oversample_pass: oversampled(|| Box::new(oversample(pass())), 30, 0, 1.0);
    oversample_late: oversampled(|| Box::new(oversample(pass())), 50, 40, 1.0);
    oversample_gain: oversampled(|| Box::new(oversample(mul(0.5))), 12, 57, 0.5);
    oversample_filter: oversampled(|| Box::new(oversample(lowpole_hz(5000.0))), 10, 3, 1.0);
    oversample_rate: oversampled_rate();
    resynth4: resynthesized(4, 20, 0);
    resynth8: resynthesized(8, 32, 0);
    resynth16: resynthesized(16, 64, 0);
    resynth32: resynthesized(32, 70, 0);
    resynth8_late: resynthesized(8, 24, 21);
    resynth16_late: resynthesized(16, 40, 37);
    resynth_channels: resynth_channels();
    resynth_times: resynth_times();
    fft2: forward_fft(2);
    fft4: forward_fft(4);
    fft8: forward_fft(8);
    fft16: forward_fft(16);
    fft32: forward_fft(32);
    fft64: forward_fft(64);
    trip2: round_trip(2);
    trip4: round_trip(4);
    trip8: round_trip(8);
    trip16: round_trip(16);
    trip32: round_trip(32);
    trip64: round_trip(64);
}
