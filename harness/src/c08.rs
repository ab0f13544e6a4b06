//! C08: crossfades replace a unit smoothly and end at the last unit requested.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;
use fundsp::net::NodeId;

type P = An<Probe<U1, U1>>;
/// Lengths of fades in samples. They are not whole numbers so that rounding cannot add a sample.
const LEN: [f64; 3] = [3.5, 1.75, 0.0];

/// Model of one replaceable unit.
struct Fm {
    cur: P,
    next: Option<(P, bool, f64, f64)>,
    latest: Option<(P, bool, f64)>,
    sr: f64,
    slot: bool,
}
impl Fm {
    fn new(p: P) -> Self {
        Fm { cur: p, next: None, latest: None, sr: DEFAULT_SR, slot: false }
    }
    fn enqueue(&mut self, mut p: P, power: bool, time: f64) {
        p.set_sample_rate(self.sr);
        if self.next.is_none() {
            self.next = Some((p, power, time, 0.0));
        } else {
            self.latest = Some((p, power, time));
        }
    }
    fn rate(&mut self, sr: f64) {
        self.sr = sr;
        self.cur.set_sample_rate(sr);
        if let Some(n) = &mut self.next {
            n.0.set_sample_rate(sr);
        }
        if let Some(n) = &mut self.latest {
            n.0.set_sample_rate(sr);
        }
    }
    fn run(&mut self, x: &[Vec<f32>], n: usize, block: bool) -> Vec<Vec<f32>> {
        let mut y = vec![vec![]];
        let mut hold = false;
        let mut p32 = 0.0f32;
        for i in 0..n {
            let mut a = [0.0; 1];
            AudioUnit::tick(&mut self.cur, &[x[0][i]], &mut a);
            let mut done = false;
            if !hold {
                if let Some((u, power, time, phase)) = &mut self.next {
                    let mut b = [0.0; 1];
                    AudioUnit::tick(u, &[x[0][i]], &mut b);
                    // rounding as in the implementation, so that most obligations become identical terms
                    let (v, w) = if !self.slot {
                        let p = *phase as f32;
                        if *power { (sine_ease(1.0 - p), sine_ease(p)) } else { (smooth5(1.0 - p), smooth5(p)) }
                    } else if block {
                        if i == 0 {
                            p32 = *phase as f32;
                        }
                        let p = p32;
                        p32 += (1.0 / (*time * self.sr)) as f32;
                        if *power { (sine_ease(1.0 - p), sine_ease(p)) } else { (smooth5(1.0 - p), smooth5(p)) }
                    } else {
                        let p = *phase;
                        if *power { (sine_ease(1.0 - p) as f32, sine_ease(p) as f32) } else { (smooth5(1.0 - p) as f32, smooth5(p) as f32) }
                    };
                    for c in 0..1 {
                        a[c] = a[c] * v + b[c] * w;
                    }
                    *phase = if self.slot { *phase + 1.0 / (*time * self.sr) } else { (*phase as f32 + 1.0 / (*time as f32 * self.sr as f32)) as f64 };
                    done = *phase >= 1.0;
                }
            }
            if done {
                self.cur = self.next.take().unwrap().0;
                self.next = self.latest.take().map(|(u, p, t)| (u, p, t, 0.0));
                // in block processing, the next fade begins in the next block
                hold = block;
            }
            for c in 0..1 {
                y[c].push(a[c]);
            }
        }
        y
    }
}
fn fade(power: bool) -> Fade {
    if power { Fade::Power } else { Fade::Smooth }
}
enum H {
    S(Slot, SlotBackend),
    N(Net, NodeId),
    B(Net, NetBackend, NodeId),
}
impl H {
    fn unit(&mut self) -> &mut dyn AudioUnit {
        match self {
            H::S(_, b) => b,
            H::N(n, _) => n,
            H::B(_, b, _) => b,
        }
    }
    fn set(&mut self, p: P, power: bool, time: f64) {
        match self {
            H::S(s, _) => s.set(fade(power), time, Box::new(p)),
            H::N(n, i) => n.crossfade(*i, fade(power), time as f32, Box::new(p)),
            H::B(n, _, i) => n.crossfade(*i, fade(power), time as f32, Box::new(p)),
        }
    }
}
fn host(k: usize, sr: f64) -> (H, Fm) {
    let mut p = q11(0.25);
    let h = match k {
        0 => {
            let (s, mut b) = Slot::new(Box::new(p.clone()));
            b.set_sample_rate(sr);
            H::S(s, b)
        }
        _ => {
            let mut n = Net::new(1, 1);
            n.set_sample_rate(sr);
            let i = n.chain(Box::new(p.clone()));
            if k == 1 {
                H::N(n, i)
            } else {
                let b = n.backend();
                H::B(n, b, i)
            }
        }
    };
    p.set_sample_rate(sr);
    let mut f = Fm::new(p);
    f.sr = sr;
    f.slot = k == 0;
    (h, f)
}
fn go(h: &mut H, f: &mut Fm, n: usize, block: bool, tol: f32) {
    let x = signal(&[A], n);
    let y = if block { by_block(h.unit(), &x, 0, &[n]) } else { by_tick(h.unit(), &x, n) };
    let z = f.run(&x, n, block);
    near(&y, &z, tol, "output is not the crossfade of the old and the new unit");
}
fn pick(n: usize) -> (bool, f64) {
    (choose(2) == 1, LEN[choose(n)])
}
/// Up to three units requested one after the other, with processing of any length in between.
fn queue(k: usize, sr: f64, first: bool) {
    let (mut h, mut f) = host(k, sr);
    go(&mut h, &mut f, 1, true, 1e-4);
    for j in 0..3 {
        let (power, l) = if j == 0 { (first, LEN[choose(3)]) } else { (choose(2) == 1, LEN[choose(2)]) };
        let p = q11(0.5 + 0.25 * j as f32);
        h.set(p.clone(), power, l / sr);
        if let H::B(n, _, _) = &mut h {
            n.commit();
        }
        f.enqueue(p, power, l / sr);
        match choose(5) {
            0 => (),
            1 => go(&mut h, &mut f, 1, false, 1e-4),
            2 => go(&mut h, &mut f, 2, true, 1e-4),
            3 => go(&mut h, &mut f, 5, true, 1e-4),
            _ => go(&mut h, &mut f, 5, false, 1e-4),
        }
    }
    go(&mut h, &mut f, 1, false, 1e-4);
    go(&mut h, &mut f, 5, true, 1e-4);
    go(&mut h, &mut f, 5, true, 1e-4);
    go(&mut h, &mut f, 1, true, 1e-4);
    check(f.next.is_none() && f.latest.is_none(), "model");
}
/// The sample rate changes during a fade.
fn rate(k: usize) {
    let sr = DEFAULT_SR;
    let (mut h, mut f) = host(k, sr);
    go(&mut h, &mut f, 1, true, 1e-4);
    let m = choose(3);
    for j in 0..m {
        let power = choose(2) == 1;
        let p = q11(0.5 + 0.25 * j as f32);
        h.set(p.clone(), power, 3.3 / sr);
        f.enqueue(p, power, 3.3 / sr);
        if choose(2) == 1 {
            go(&mut h, &mut f, 2, choose(2) == 1, 1e-4);
        }
    }
    if let H::S(..) = h {
        // make sure that the messages have arrived
        go(&mut h, &mut f, 1, true, 1e-4);
    }
    let r = if choose(2) == 1 { 88200.0 } else { 22050.0 };
    h.unit().set_sample_rate(r);
    f.rate(r);
    go(&mut h, &mut f, 3, choose(2) == 1, 1e-4);
    go(&mut h, &mut f, 12, true, 1e-4);
    go(&mut h, &mut f, 12, true, 1e-4);
}
/// A slot that is reset plays its last unit from the start.
fn reset_slot() {
    let (mut h, mut f) = host(0, DEFAULT_SR);
    go(&mut h, &mut f, 1, true, 1e-4);
    for j in 0..choose(3) {
        let p = q11(0.5 + 0.25 * j as f32);
        h.set(p.clone(), true, 3.3 / f.sr);
        f.enqueue(p, true, 3.3 / f.sr);
        go(&mut h, &mut f, 1 + choose(2), choose(2) == 1, 1e-4);
    }
    h.unit().reset();
    if let Some(n) = f.next.take() {
        f.cur = n.0;
    }
    if let Some(n) = f.latest.take() {
        f.cur = n.0;
    }
    f.cur.reset();
    go(&mut h, &mut f, 6, choose(2) == 1, 1e-4);
}
/// A network that is reset restarts all its units.
fn reset_net() {
    let (mut h, mut f) = host(1, DEFAULT_SR);
    go(&mut h, &mut f, 1, true, 1e-4);
    for j in 0..choose(3) {
        let p = q11(0.5 + 0.25 * j as f32);
        h.set(p.clone(), true, 3.3 / f.sr);
        f.enqueue(p, true, 3.3 / f.sr);
        go(&mut h, &mut f, 1 + choose(2), choose(2) == 1, 1e-4);
    }
    h.unit().reset();
    f.cur.reset();
    if let Some(n) = &mut f.next {
        n.0.reset();
        n.3 = 0.0;
    }
    if let Some(n) = &mut f.latest {
        n.0.reset();
    }
    go(&mut h, &mut f, 6, choose(2) == 1, 1e-4);
    go(&mut h, &mut f, 6, true, 1e-4);
}
/// Frontend rate changes and resets restart the last unit in the backend.
fn front() {
    let (mut h, mut f) = host(2, DEFAULT_SR);
    go(&mut h, &mut f, 1, true, 1e-4);
    let mut last = q11(0.25);
    let early = choose(2) == 1;
    let rate = choose(2) == 1;
    if let H::B(n, _, i) = &mut h {
        last = q11(0.5);
        n.crossfade(*i, Fade::Smooth, 3.3 / 44100.0, Box::new(last.clone()));
        if early {
            n.commit();
            f.enqueue(last.clone(), false, 3.3 / 44100.0);
        }
    }
    if early {
        go(&mut h, &mut f, if choose(2) == 1 { 2 } else { 5 }, true, 1e-4);
    }
    if let H::B(n, _, _) = &mut h {
        if rate {
            n.set_sample_rate(88200.0);
        } else {
            n.reset();
        }
        n.commit();
    }
    let sr = if rate { 88200.0 } else { 44100.0 };
    if early {
        last.set_sample_rate(sr);
        f = Fm::new(last);
        f.sr = sr;
    } else {
        let mut p = q11(0.25);
        p.set_sample_rate(sr);
        f = Fm::new(p);
        f.sr = sr;
        f.enqueue(last, false, 3.3 / 44100.0);
    }
    go(&mut h, &mut f, 3, choose(2) == 1, 1e-4);
    go(&mut h, &mut f, 6, true, 1e-4);
}
/// A new node fades in from silence.
fn fade_in(back: bool) {
    let mut n = Net::new(1, 1);
    let (power, l) = pick(3);
    let p = q11(0.5);
    let mut b = None;
    if back {
        b = Some(n.backend());
    }
    let i = n.fade_in(fade(power), (l / DEFAULT_SR) as f32, Box::new(p.clone()));
    n.pipe_input(i);
    n.pipe_output(i);
    if back {
        n.commit();
    }
    let x = signal(&[A], 13);
    let u: &mut dyn AudioUnit = match &mut b {
        Some(b) => b,
        None => &mut n,
    };
    let y = if choose(2) == 1 { by_block(u, &x, 0, &[2, 11]) } else { by_tick(u, &x, 13) };
    let mut p = p;
    let z = by_tick(&mut p, &x, 13);
    for c in 0..1 {
        for k in 0..13 {
            let t = if l > 0.0 { (k as f64 / l).min(1.0) as f32 } else if k > 0 { 1.0 } else { 0.0 };
            close(y[c][k], z[c][k] * if power { sine_ease(t) } else { smooth5(t) }, 2e-5, "node does not fade in");
        }
    }
}
/// Fade shapes.
fn shapes() {
    close(Fade::Smooth.at(0.0), 0.0, 1e-6, "");
    close(Fade::Smooth.at(1.0), 1.0, 1e-6, "");
    close(Fade::Power.at(0.0), 0.0, 1e-6, "");
    close(Fade::Power.at(1.0), 1.0, 1e-6, "");
    let k = choose(65) as f32 / 64.0;
    let (a, b) = (Fade::Power.at(k), Fade::Power.at(1.0 - k));
    close(a * a + b * b, 1.0, 5e-3, "power fade keeps the power nearly constant");
    let (a, b) = (Fade::Smooth.at(k), Fade::Smooth.at(1.0 - k));
    close(a + b, 1.0, 1e-5, "smooth fade keeps the sum constant");
}
harnesses! { "c08";
    slot: queue(0, 48000.0, false); net: queue(1, 44100.0, false); backend: queue(2, 48000.0, false);
    slot_power: queue(0, 44100.0, true); net_power: queue(1, 48000.0, true); backend_power: queue(2, 44100.0, true);
    change_slot: rate(0); change_net: rate(1); reset_slot: reset_slot(); reset_net: reset_net(); front: front();
    fade_in: fade_in(false); fade_in_backend: fade_in(true); shapes: shapes();
}
