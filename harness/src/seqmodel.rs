//! Model of a sequencer, shared by the harnesses. Times are in samples.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;
use fundsp::realseq::SequencerBackend;
use fundsp::sequencer::{EventId, Fade};

pub struct Ev {
    id: EventId,
    unit: Box<dyn AudioUnit>,
    start: f64,
    end: f64,
    /// first and last sample of activity
    s0: i64,
    e0: i64,
    fi: f64,
    fo: f64,
    power: bool,
}
pub struct Sq {
    pub seq: Sequencer,
    pub back: Option<SequencerBackend>,
    pub evs: Vec<Ev>,
    pub now: i64,
    pub sr: f64,
    gain: f32,
    /// symbolic offsets from the sample grid
    pub jitter: bool,
    /// no fades
    pub plain: bool,
}
const FOREVER: i64 = 1 << 40;
impl Sq {
    pub fn new(replay: bool) -> Sq {
        Sq { seq: Sequencer::new(replay, 2), back: None, evs: vec![], now: 0, sr: DEFAULT_SR, gain: 0.0, jitter: false, plain: false }
    }
    pub fn rate(&mut self, sr: f64) {
        self.sr = sr;
        match &mut self.back {
            Some(b) => b.set_sample_rate(sr),
            None => self.seq.set_sample_rate(sr),
        }
    }
    pub fn start(&mut self) {
        self.back = Some(self.seq.backend());
    }
    /// A time in samples near the integer `k`, which it rounds to.
    fn near(&self, k: i64) -> f64 {
        if k >= FOREVER {
            f64::INFINITY
        } else if self.jitter {
            k as f64 + f64_in(-0.4375, 0.4375)
        } else {
            k as f64
        }
    }
    /// Adds an event with any parameters.
    pub fn push(&mut self, kind: usize) {
        self.gain += 0.25;
        let g = self.gain;
        let s0 = self.now + [-2, 0, 2, 66][choose(4)];
        let len = [4, 67, FOREVER][choose(3)];
        let e0 = s0 + len;
        let start = self.near(s0);
        let end = if kind == 2 && len < FOREVER { start + len as f64 } else { self.near(e0) };
        let (fi, fo) = if self.jitter || self.plain { (0.0, 0.0) } else { [(0.0, 0.0), (2.0, 0.0), (1.0, 2.0)][choose(3)] };
        let power = fi == 2.0;
        let fade = if power { Fade::Power } else { Fade::Smooth };
        let d = 1.0 / self.sr;
        let u = Box::new(q02(g));
        let n = self.now as f64;
        let id = match kind {
            0 => self.seq.push(start * d, end * d, fade, fi * d, fo * d, u),
            1 => self.seq.push_relative((start - n) * d, (end - n) * d, fade, fi * d, fo * d, u),
            _ => self.seq.push_duration(start * d, if len < FOREVER { len as f64 * d } else { f64::INFINITY }, fade, fi * d, fo * d, u),
        };
        let mut unit = q02(g);
        unit.set_sample_rate(self.sr);
        self.evs.push(Ev { id, unit: Box::new(unit), start, end, s0, e0, fi, fo, power });
    }
    /// Shortens an event.
    pub fn edit(&mut self, relative: bool) {
        assume(!self.evs.is_empty());
        let k = choose(self.evs.len());
        let e0 = self.now + [0, 3, 65, -3][choose(if relative { 3 } else { 4 })];
        assume(e0 <= self.evs[k].e0);
        let end = self.near(e0);
        let fo = [0.0, 2.0][if self.jitter || self.plain { 0 } else { choose(2) }];
        let d = 1.0 / self.sr;
        if relative {
            self.seq.edit_relative(self.evs[k].id, (end - self.now as f64) * d, fo * d);
        } else {
            self.seq.edit(self.evs[k].id, end * d, fo * d);
        }
        self.evs[k].end = end;
        self.evs[k].e0 = e0;
        self.evs[k].fo = fo;
    }
    pub fn op(&mut self) {
        match choose(5) {
            0 => self.push(0),
            1 => self.push(1),
            2 => self.push(2),
            3 => self.edit(false),
            _ => self.edit(true),
        }
    }
    pub fn reset(&mut self) {
        match &mut self.back {
            Some(b) => b.reset(),
            None => self.seq.reset(),
        }
        self.now = 0;
        if !self.seq.replay_events() {
            self.evs.clear();
        }
        for e in self.evs.iter_mut() {
            e.unit.reset();
        }
    }
    pub fn run(&mut self, n: usize, block: bool) {
        let u: &mut dyn AudioUnit = match &mut self.back {
            Some(b) => b,
            None => &mut self.seq,
        };
        let y = if block { by_block(u, &[], 0, &[n]) } else { by_tick(u, &[], n) };
        for i in 0..n {
            let mut o = [0.0f32; 2];
            for e in self.evs.iter_mut() {
                if self.now < e.s0 || self.now >= e.e0 {
                    continue;
                }
                let mut f = [0.0f32; 2];
                e.unit.tick(&[], &mut f);
                let t = self.now as f64;
                let w = |x: f64| -> f32 {
                    let x = x.max(0.0).min(1.0) as f32;
                    if e.power { sine_ease(x) } else { smooth5(x) }
                };
                let mut g = 1.0;
                if e.fi > 0.0 {
                    g *= w((t - e.start) / e.fi);
                }
                if e.fo > 0.0 {
                    g *= w((e.end - t) / e.fo);
                }
                for c in 0..2 {
                    o[c] += f[c] * g;
                }
            }
            for c in 0..2 {
                close(y[c][i], o[c], 1e-4, "output differs from the scheduled events");
            }
            self.now += 1;
        }
        if self.back.is_none() {
            close64(self.seq.time() * self.sr, self.now as f64, 1e-6, 0.0, "time");
        }
    }
}
