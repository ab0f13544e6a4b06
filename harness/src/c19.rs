//! C19: waves. Editing follows a plain model of channels of samples; rendering and filtering run the unit
//! over exactly the requested number of samples.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;

fn samples(n: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(f32_in(-2.0, 2.0));
    }
    v
}

struct M {
    c: Vec<Vec<f32>>,
    rate: f64,
}
impl M {
    fn len(&self) -> usize {
        if self.c.is_empty() { 0 } else { self.c[0].len() }
    }
}

fn make(channels: usize, n: usize, rate: f64) -> (Wave, M) {
    let mut w = Wave::new(0, rate);
    let mut m = M { c: Vec::new(), rate };
    for _ in 0..channels {
        let s = samples(n);
        w.push_channel(&s);
        m.c.push(s);
    }
    (w, m)
}

fn agree(w: &Wave, m: &M) {
    check(w.channels() == m.c.len(), "number of channels");
    check(w.length() == m.len() && w.len() == m.len(), "length of wave");
    check(w.is_empty() == (m.len() == 0), "emptiness of wave");
    eq64(w.sample_rate(), m.rate, "sample rate of wave");
    eq64(w.duration(), m.len() as f64 / m.rate, "duration of wave");
    for c in 0..m.c.len() {
        check(w.channel(c).len() == m.c[c].len(), "length of channel");
        for i in 0..m.c[c].len() {
            eq32(w.at(c, i), m.c[c][i], "sample of wave");
            eq32(w.channel(c)[i], m.c[c][i], "sample of channel");
        }
    }
}

fn op(w: &mut Wave, m: &mut M, k: usize) {
    match k {
        0 => {
            let s = samples(m.len());
            w.push_channel(&s);
            m.c.push(s);
        }
        1 => {
            let at = choose(m.c.len() + 1);
            let s = samples(if m.c.is_empty() { 2 } else { m.len() });
            w.insert_channel(at, &s);
            m.c.insert(at, s);
        }
        2 => {
            if m.c.is_empty() {
                return;
            }
            let at = choose(m.c.len());
            let r = w.remove_channel(at);
            let t = m.c.remove(at);
            check(r.len() == t.len(), "length of removed channel");
            for i in 0..t.len() {
                eq32(r[i], t[i], "sample of removed channel");
            }
        }
        3 => {
            if m.c.is_empty() {
                return;
            }
            let at = m.c.len() - 1;
            let offset = choose(6) as isize - 3;
            let s = samples(choose(2) * 2 + 1);
            w.mix_channel(at, offset, &s);
            for i in 0..s.len() {
                let j = i as isize + offset;
                if j >= 0 && (j as usize) < m.len() {
                    m.c[at][j as usize] += s[i];
                }
            }
        }
        4 => {
            if m.c.is_empty() {
                return;
            }
            let (v, n) = make(m.c.len(), choose(3), 11025.0);
            w.append(&v);
            agree(&v, &n);
            for c in 0..m.c.len() {
                m.c[c].extend_from_slice(&n.c[c]);
            }
        }
        5 => {
            if m.c.len() == 2 && choose(2) == 0 {
                let s = samples(2);
                w.push((s[0], s[1]));
                m.c[0].push(s[0]);
                m.c[1].push(s[1]);
            } else {
                let s = samples(1);
                w.push(s[0]);
                for c in m.c.iter_mut() {
                    c.push(s[0]);
                }
            }
        }
        6 => {
            if m.c.is_empty() {
                return;
            }
            let n = choose(7);
            w.resize(n);
            for c in m.c.iter_mut() {
                c.resize(n, 0.0);
            }
        }
        7 => {
            if m.c.is_empty() {
                return;
            }
            let start = choose(8) as isize - 3;
            let length = [0, 1, 2, 4, 9, usize::MAX][choose(6)];
            w.retain(start, length);
            let n = m.len() as isize;
            let length = min(length, 100) as isize;
            let a = min(max(start, 0), n);
            let b = max(min(start + length, n), a);
            for c in m.c.iter_mut() {
                *c = c[a as usize..b as usize].to_vec();
            }
        }
        8 => {
            let g = f32_in(-2.0, 2.0);
            w.amplify(g);
            for c in m.c.iter_mut() {
                for x in c.iter_mut() {
                    *x *= g;
                }
            }
        }
        9 => {
            if m.c.is_empty() || m.len() == 0 {
                return;
            }
            let (c, i) = (choose(m.c.len()), choose(m.len()));
            let (x, y) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
            w.set(c, i, x);
            w.mix(c, i, y);
            m.c[c][i] = x + y;
            w.channel_mut(c)[0] = y;
            m.c[c][0] = y;
        }
        _ => {
            w.set_sample_rate(8000.0);
            m.rate = 8000.0;
        }
    }
}

fn two(first: &[usize], channels: usize) {
    let (mut w, mut m) = make(channels, 3, 44100.0);
    agree(&w, &m);
    let k = first[choose(first.len())];
    op(&mut w, &mut m, k);
    agree(&w, &m);
    let k = choose(11);
    op(&mut w, &mut m, k);
    agree(&w, &m);
}

/// Generator with symbolic output.
#[derive(Clone)]
struct Src {
    x: Vec<f32>,
    i: usize,
    late: f64,
    rate: f64,
}
impl AudioNode for Src {
    const ID: u64 = 9010;
    type Inputs = U0;
    type Outputs = U2;
    fn reset(&mut self) {
        self.i = 0;
    }
    fn set_sample_rate(&mut self, rate: f64) {
        self.rate = rate;
    }
    fn tick(&mut self, _: &Frame<f32, U0>) -> Frame<f32, U2> {
        let x = self.x[self.i];
        self.i += 1;
        [x, x * 0.5 + self.rate as f32].into()
    }
    fn route(&mut self, _: &SignalFrame, _: f64) -> SignalFrame {
        let mut o = SignalFrame::new(2);
        // samples of latency at 44100 Hz
        let l = self.late * self.rate / 44100.0;
        o.set(0, Signal::Latency(l));
        o.set(1, Signal::Latency(l + 1.0));
        o
    }
}

/// Delay of `at44 * rate / 44100` samples, with that latency and a fraction more.
#[derive(Clone)]
struct Lag {
    at44: f64,
    rate: f64,
    x: Vec<f32>,
}
impl AudioNode for Lag {
    const ID: u64 = 9011;
    type Inputs = U1;
    type Outputs = U1;
    fn reset(&mut self) {
        self.x.clear();
    }
    fn set_sample_rate(&mut self, rate: f64) {
        self.rate = rate;
        self.x.clear();
    }
    fn tick(&mut self, x: &Frame<f32, U1>) -> Frame<f32, U1> {
        self.x.push(x[0]);
        let d = (self.at44 * self.rate / 44100.0) as usize;
        [if self.x.len() > d { self.x[self.x.len() - 1 - d] } else { 0.0 }].into()
    }
    fn route(&mut self, i: &SignalFrame, _: f64) -> SignalFrame {
        let mut o = SignalFrame::new(1);
        o.set(0, i.at(0).distort((self.at44 * self.rate / 44100.0) + 0.25));
        o
    }
}

const LENGTHS: [usize; 9] = [0, 1, 7, 8, 9, 63, 64, 65, 131];
const RATES: [f64; 3] = [44100.0, 48000.0, 22050.0];

fn seconds(n: usize, rate: f64) -> f64 {
    // not necessarily an integer number of samples
    (n as f64 + [0.0, 0.4, -0.4][choose(3)]).max(0.0) / rate
}

fn render(late: f64) {
    let n = LENGTHS[choose(LENGTHS.len())];
    let rate = RATES[choose(3)];
    let t = seconds(n, rate);
    let x = samples(n + 2 * late as usize + 2);
    let mut u = An(Src { x: x.clone(), i: 0, late, rate: 1.0 });
    let skip = (late * rate / 44100.0) as usize;
    let w = if late < 0.5 { Wave::render(rate, t, &mut u) } else { Wave::render_latency(rate, t, &mut u) };
    check(w.length() == n && w.channels() == 2, "shape of rendered wave");
    eq64(w.sample_rate(), rate, "sample rate of rendered wave");
    for i in 0..n {
        eq32(w.at(0, i), x[i + skip], "sample of rendered wave");
        eq32(w.at(1, i), x[i + skip] * 0.5 + rate as f32, "sample of rendered wave");
    }
}

harnesses! { "c19";
    edit_add: { two(&[0, 1, 5], 2) };
    edit_remove: { two(&[2, 6], 2) };
    edit_mix: { two(&[3, 4], 2) };
    edit_retain: { two(&[7], 2) };
    edit_values: { two(&[8, 9, 10], 2) };
    edit_mono: { two(&[2, 4, 5], 1) };
    edit_empty: { two(&[0, 1, 5, 8, 10], 0) };
    constructors: {
        let n = choose(4);
        let s = samples(n);
        let w = Wave::from_samples(48000.0, &s);
        agree(&w, &M { c: vec![s], rate: 48000.0 });
        let w = Wave::new(choose(3), 8000.0);
        check(w.length() == 0 && w.is_empty() && w.amplitude() == 0.0, "new wave is not empty");
        let w = Wave::with_capacity(2, 8000.0, 10);
        check(w.length() == 0 && w.channels() == 2, "new wave is not empty");
        let t = (n as f64 + [0.0, 0.4, -0.4][choose(3)]).max(0.0) / 8000.0;
        let w = Wave::zero(2, 8000.0, t);
        agree(&w, &M { c: vec![[0.0f32; 4][..n].to_vec(), [0.0f32; 4][..n].to_vec()], rate: 8000.0 });
    };
    amplitude: {
        let (w, m) = make(2, 2, 44100.0);
        let a = w.amplitude();
        let mut hit = a == 0.0;
        for c in m.c.iter() {
            for x in c.iter() {
                check(abs(*x) <= a, "a sample exceeds the amplitude");
                hit = hit | (abs(*x) == a);
            }
        }
        check(hit, "amplitude is not attained");
    };
    normalize: {
        let mut w = Wave::new(2, 44100.0);
        let (p, x, y) = (f64_in(0.25, 4.0) as f32, f32_in(-0.25, 0.25), f32_in(-0.25, 0.25));
        let p = if choose(2) == 0 { p } else { -p };
        if choose(2) == 0 {
            w.push((x, p));
            w.push((y, x));
        } else {
            w.push((y, x));
            w.push((p, y));
        }
        let v = w.clone();
        w.normalize();
        for c in 0..2 {
            for i in 0..2 {
                check(abs(w.at(c, i)) <= 1.0 + 1e-6, "normalized wave exceeds one");
                // multiplied by the peak
                close(w.at(c, i) * abs(p), v.at(c, i), 1e-5, "normalization is not a scaling to the peak");
            }
        }
        let mut z = Wave::zero(2, 44100.0, 0.001);
        z.normalize();
        check(z.amplitude() == 0.0, "normalizing silence");
    };
    fades: {
        let n = choose(4) + 3;
        let (mut w, m) = make(2, n, 8000.0);
        // the wave is at most 6 samples long
        let f = [0.0, 0.3, 1.0, 2.0, 2.7, 3.0, 9.0][choose(7)];
        let kind = choose(3);
        match kind {
            0 => w.fade_in(f / 8000.0),
            1 => w.fade_out(f / 8000.0),
            _ => w.fade(f / 8000.0),
        }
        let k = min((f + 0.5) as usize, n);
        check(w.length() == n && w.channels() == 2, "a fade changed the shape of the wave");
        for c in 0..2 {
            for i in 0..n {
                let mut a = 1.0;
                if kind != 1 && i < k {
                    a *= smooth5((i + 1) as f64 / (k + 1) as f64);
                }
                if kind != 0 && n - 1 - i < k {
                    a *= smooth5((n - i) as f64 / (k + 1) as f64);
                }
                close(w.at(c, i), m.c[c][i] * a as f32, 1e-6, "faded sample");
            }
        }
    };
    render: { render(0.0) };
    render_latency: { render(6.0) };
    filter: {
        let n = LENGTHS[choose(LENGTHS.len())];
        let rate = RATES[choose(2)];
        let (w, m) = make(2, n, rate);
        let total = [0, 5, n, n + 3, n + 70][choose(5)];
        let t = total as f64 / rate;
        let g = f32_in(0.25, 1.0);
        let mut u = p22(g);
        u.set_sample_rate(rate);
        let mut x = m.c.clone();
        for c in x.iter_mut() {
            c.resize(total, 0.0);
        }
        let y = by_tick(&mut u, &x, total);
        let mut u = p22(g);
        let v = w.filter(t, &mut u);
        check(v.length() == total && v.channels() == 2, "shape of filtered wave");
        eq64(v.sample_rate(), rate, "sample rate of filtered wave");
        for c in 0..2 {
            for i in 0..total {
                close(v.at(c, i), y[c][i], 1e-6, "sample of filtered wave");
            }
        }
        agree(&w, &m);
    };
    filter_latency: {
        let n = LENGTHS[choose(LENGTHS.len())];
        let rate = RATES[choose(3)];
        let (w, m) = make(1, n, rate);
        let total = [0, 5, n, n + 3, n + 70][choose(5)];
        let mut u = An(Lag { at44: [0.0, 6.0, 70.0][choose(3)], rate: 44100.0, x: Vec::new() });
        let v = w.filter_latency(total as f64 / rate, &mut u);
        check(v.length() == total && v.channels() == 1, "shape of filtered wave");
        for i in 0..total {
            eq32(v.at(0, i), if i < n { m.c[0][i] } else { 0.0 }, "latency was not discarded");
        }
    };
    latency_units: {
        // real units with latency
        let n = 30;
        let (w, m) = make(1, n, 44100.0);
        let mut u = unit::<U1, U1>(Box::new(An(Lag { at44: 12.0, rate: 44100.0, x: Vec::new() }) >> Net::wrap(Box::new(pass()))));
        let v = w.filter_latency(40.0 / 44100.0, &mut u);
        for i in 0..40 {
            eq32(v.at(0, i), if i < n { m.c[0][i] } else { 0.0 }, "latency was not discarded");
        }
    };
}
