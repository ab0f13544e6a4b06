//! C12: the frequency response that a filter reports is what it does to every signal.
use crate::prim::*;
use crate::util::*;
use fundsp::hacker::*;

/// Impulse response from the reported frequency response, by inverse DFT of length `k`
/// (the impulse responses of the filters have decayed by then).
fn impulse_response(u: &mut dyn AudioUnit, sr: f64, k: usize, n: usize) -> Vec<f64> {
    let mut cs = vec![];
    for i in 0..k {
        cs.push(libm::cos(i as f64 * core::f64::consts::TAU / k as f64));
    }
    let mut re = vec![];
    let mut im = vec![];
    for i in 0..=k / 2 {
        match u.response(0, i as f64 * sr / k as f64) {
            Some(r) => {
                re.push(r.re);
                im.push(r.im);
            }
            None => check(false, "no response reported"),
        }
    }
    let mut h = vec![];
    for t in 0..n {
        let mut s = re[0] + re[k / 2] * if t % 2 == 0 { 1.0 } else { -1.0 };
        for i in 1..k / 2 {
            let a = i * t % k;
            s += 2.0 * (re[i] * cs[a] - im[i] * cs[(a + 3 * k / 4) % k]);
        }
        h.push(s / k as f64);
    }
    h
}

/// Processing an arbitrary signal with `u` convolves it with the impulse response that it reports.
/// `ctl` are the values of its control inputs.
fn link(mut u: Box<dyn AudioUnit>, ctl: &[f32], k: usize, n: usize, tol: f32) {
    let sr = [44100.0, 48000.0][choose(2)];
    u.set_sample_rate(sr);
    // the response is that of the latest control inputs
    let mut fi = vec![0.0];
    fi.extend_from_slice(ctl);
    let mut fo = vec![0.0];
    u.tick(&fi, &mut fo);
    let h = impulse_response(&mut *u, sr, k, n);
    let mut x = signal(&[A], n);
    for c in ctl {
        x.push(vec![*c; n]);
    }
    let y = if choose(2) == 0 { by_tick(&mut *u, &x, n) } else { by_block(&mut *u, &x, 0, &[n]) };
    for i in 0..n {
        let mut s = 0.0;
        for j in 0..=i {
            s += h[j] as f32 * x[0][i - j];
        }
        close(y[0][i], s, tol, "output differs from the reported frequency response");
    }
}
fn lk<X: AudioNode + 'static>(x: An<X>, ctl: &[f32])
where
    X::Inputs: Size<f32>,
    X::Outputs: Size<f32>,
{
    link(Box::new(x), ctl, 128, 12, 1e-3)
}
fn cut() -> f32 {
    [7000.0, 10000.0, 3500.0][choose(3)]
}
fn q() -> f32 {
    [0.5, 0.75][choose(2)]
}
fn gn() -> f32 {
    [0.5, 2.0][choose(2)]
}

harnesses! { "c12";
    lowpass: { let (f, q) = (cut(), q()); lk(lowpass(), &[f, q]) };
    lowpass_hz: { let (f, q) = (cut(), q()); lk(lowpass_hz(f, q), &[]) };
    lowpass_q: { let (f, q) = (cut(), q()); lk(lowpass_q(q), &[f]) };
    highpass: { let (f, q) = (cut(), q()); lk(highpass(), &[f, q]) };
    highpass_hz: { let (f, q) = (cut(), q()); lk(highpass_hz(f, q), &[]) };
    bandpass: { let (f, q) = (cut(), q()); lk(bandpass(), &[f, q]) };
    bandpass_hz: { let (f, q) = (cut(), q()); lk(bandpass_hz(f, q), &[]) };
    notch: { let (f, q) = (cut(), q()); lk(notch(), &[f, q]) };
    notch_hz: { let (f, q) = (cut(), q()); lk(notch_hz(f, q), &[]) };
    peak: { let (f, q) = (cut(), q()); lk(peak(), &[f, q]) };
    peak_hz: { let (f, q) = (cut(), q()); lk(peak_hz(f, q), &[]) };
    allpass: { let (f, q) = (cut(), q()); lk(allpass(), &[f, q]) };
    allpass_hz: { let (f, q) = (cut(), q()); lk(allpass_hz(f, q), &[]) };
    bell: { let (f, q, g) = (cut(), q(), gn()); lk(bell(), &[f, q, g]) };
    bell_hz: { let (f, q, g) = (cut(), q(), gn()); lk(bell_hz(f, q, g), &[]) };
    lowshelf: { let (f, q, g) = (cut(), q(), gn()); lk(lowshelf(), &[f, q, g]) };
    lowshelf_hz: { let (f, q, g) = (cut(), q(), gn()); lk(lowshelf_hz(f, q, g), &[]) };
    highshelf: { let (f, q, g) = (cut(), q(), gn()); lk(highshelf(), &[f, q, g]) };
    highshelf_hz: { let (f, q, g) = (cut(), q(), gn()); lk(highshelf_hz(f, q, g), &[]) };
    morph: { let (f, q, m) = (cut(), q(), [-1.0, 0.5][choose(2)]); lk(morph(), &[f, q, m]) };
    morph_hz: { let (f, q, m) = (cut(), q(), [1.0, -0.25][choose(2)]); lk(morph_hz(f, q, m), &[]) };
    biquad: lk(biquad(-0.5, 0.25, 0.5, 0.25, -0.125), &[]);
    biquad2: lk(biquad(0.25, -0.375, 1.0, -0.5, 0.5), &[]);
    butterpass: { let f = cut(); lk(butterpass(), &[f]) };
    butterpass_hz: { let f = cut(); lk(butterpass_hz(f), &[]) };
    resonator: { let f = cut(); lk(resonator(), &[f, 0.5]) };
    resonator_hz: { let f = cut(); lk(resonator_hz(f, 0.75), &[]) };
    lowpole: { let f = cut(); lk(lowpole(), &[f]) };
    lowpole_hz: { let f = cut(); lk(lowpole_hz(f), &[]) };
    highpole: { let f = cut(); lk(highpole(), &[f]) };
    highpole_hz: { let f = cut(); lk(highpole_hz(f), &[]) };
    allpole: { let d = [1.0f32, 0.5, 1.5][choose(3)]; lk(allpole(), &[d]) };
    allpole_delay: { let d = [1.0f32, 0.5, 1.5][choose(3)]; lk(allpole_delay(d), &[]) };
    dcblock_hz: { let f = [1500.0f32, 4000.0][choose(2)]; lk(dcblock_hz(f), &[]) };
    follow: lk(follow(0.0001), &[]);
    afollow: lk(afollow(0.0001, 0.0001), &[]);
    fir3: { let (a, b, c) = (0.5, -0.25, 0.75); lk(fir((a, b, c)), &[]) };
    fir3_gain: lk(fir3(0.5), &[]);
    tick: lk(tick(), &[]);
    delay: { let d = [3.0, 5.0][choose(2)]; let u = delay(d / 44100.0); link(Box::new(u), &[], 128, 9, 1e-3) };
    chain: { let f = cut(); lk(lowpole_hz(f) >> highpole_hz(4000.0) >> fir((0.5, 0.25)), &[]) };
    bus: { let f = cut(); lk(lowpole_hz(f) & 0.5 * highpass_hz(f, 0.75) & -tick(), &[]) };
    net: { let f = cut(); let n = Net::wrap(Box::new(lowpole_hz(f))) >> (Net::wrap(Box::new(tick())) & Net::wrap(Box::new(bandpass_hz(f, 0.5)))); link(Box::new(n), &[], 128, 12, 1e-3) };
}
