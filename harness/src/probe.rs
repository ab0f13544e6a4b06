//! A node whose output depends on everything a container has to forward to it: its inputs, its own
//! history, reset, the sample rate, settings, the pseudorandom hash and preallocation.
use fundsp::hacker::*;
use std::marker::PhantomData;

#[derive(Clone)]
pub struct Probe<I: Size<f32>, O: Size<f32>> {
    _m: PhantomData<(I, O)>,
    pub gain: f32,
    z: f32,
    n: usize,
    mem: Vec<f32>,
    rate: f64,
    value: f32,
    hash: u64,
    plain: bool,
}

pub const KEEP: usize = 3;

impl<I: Size<f32>, O: Size<f32>> Probe<I, O> {
    pub fn new(gain: f32) -> Self {
        Probe { _m: PhantomData, gain, z: 0.0, n: 0, mem: Vec::new(), rate: DEFAULT_SR, value: 0.0, hash: 0, plain: false }
    }
    /// A probe that ignores its hash.
    pub fn plain(gain: f32) -> Self {
        Probe { plain: true, ..Self::new(gain) }
    }
}

impl<I: Size<f32>, O: Size<f32>> AudioNode for Probe<I, O> {
    const ID: u64 = 9001;
    type Inputs = I;
    type Outputs = O;
    fn reset(&mut self) {
        self.z = 0.0;
        self.n = 0;
        self.mem.clear();
    }
    fn set_sample_rate(&mut self, r: f64) {
        if r != self.rate {
            self.rate = r;
            self.mem = Vec::new();
            self.z = 0.0;
            self.n = 0;
        }
    }
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, O> {
        let mut x = 0.0;
        for (c, i) in input.iter().enumerate() {
            x += i * (c + 1) as f32;
        }
        if self.mem.len() < KEEP {
            self.mem.push(x * self.gain);
        }
        let y = x * self.gain
            + self.z * 0.25
            + self.mem[0] * 0.125
            + self.value
            + (self.hash % 64) as f32 * 0.0078125
            + (self.rate * 0.00001) as f32
            + (self.n % 5) as f32 * 0.0625;
        self.z = x;
        self.n += 1;
        Frame::generate(|c| y * (1.0 - 0.5 * c as f32))
    }
    fn set(&mut self, s: Setting) {
        if let Parameter::Value(v) = s.parameter() {
            if let Address::Null = s.direction() {
                self.value = *v;
            }
        }
    }
    fn set_hash(&mut self, hash: u64) {
        if !self.plain {
            self.hash = hash;
        }
    }
    fn allocate(&mut self) {
        self.mem.reserve(KEEP.saturating_sub(self.mem.len()));
    }
    fn route(&mut self, input: &SignalFrame, _f: f64) -> SignalFrame {
        let mut o = SignalFrame::new(self.outputs());
        for i in 0..self.outputs() {
            if self.inputs() > 0 {
                let g = self.gain as f64 * (1.0 - 0.5 * i as f64);
                o.set(i, input.at(0).filter(self.gain as f64 * 8.0, |r| r * g));
            } else {
                o.set(i, Signal::Latency(self.gain as f64 * 8.0));
            }
        }
        o
    }
}

pub fn p11(g: f32) -> An<Probe<U1, U1>> {
    An(Probe::new(g))
}
pub fn p01(g: f32) -> An<Probe<U0, U1>> {
    An(Probe::new(g))
}
pub fn p02(g: f32) -> An<Probe<U0, U2>> {
    An(Probe::new(g))
}
pub fn p12(g: f32) -> An<Probe<U1, U2>> {
    An(Probe::new(g))
}
pub fn p21(g: f32) -> An<Probe<U2, U1>> {
    An(Probe::new(g))
}
pub fn p22(g: f32) -> An<Probe<U2, U2>> {
    An(Probe::new(g))
}

pub fn q11(g: f32) -> An<Probe<U1, U1>> {
    An(Probe::plain(g))
}
pub fn q01(g: f32) -> An<Probe<U0, U1>> {
    An(Probe::plain(g))
}
pub fn q02(g: f32) -> An<Probe<U0, U2>> {
    An(Probe::plain(g))
}
pub fn q12(g: f32) -> An<Probe<U1, U2>> {
    An(Probe::plain(g))
}
pub fn q21(g: f32) -> An<Probe<U2, U1>> {
    An(Probe::plain(g))
}
pub fn q22(g: f32) -> An<Probe<U2, U2>> {
    An(Probe::plain(g))
}
