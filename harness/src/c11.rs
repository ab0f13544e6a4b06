//! C11: signal flow analysis (latency and frequency response) of composed graphs.
use crate::prim::*;
use crate::refexpr::*;
use fundsp::hacker::*;
use num_complex::Complex64;
use std::marker::PhantomData;

/// A node with a known analysis: output `o` filters input `o mod I` with gain `g + 0.5 o + 0.25 j` and
/// latency `4 g + o`; without inputs it is a generator with that latency.
#[derive(Clone)]
pub struct Known<I: Size<f32>, O: Size<f32>>(f64, PhantomData<(I, O)>);
impl<I: Size<f32>, O: Size<f32>> AudioNode for Known<I, O> {
    const ID: u64 = 9002;
    type Inputs = I;
    type Outputs = O;
    fn tick(&mut self, _: &Frame<f32, I>) -> Frame<f32, O> {
        Frame::generate(|_| 0.0)
    }
    fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
        check(input.len() == I::USIZE, "node analysed with a wrong number of inputs");
        let mut out = SignalFrame::new(O::USIZE);
        for o in 0..O::USIZE {
            let g = Complex64::new(self.0 + 0.5 * o as f64, 0.25 * frequency);
            let l = 4.0 * self.0 + o as f64;
            out.set(
                o,
                if I::USIZE == 0 {
                    Signal::Latency(l)
                } else {
                    match input.at(o % I::USIZE) {
                        Signal::Response(r, k) => Signal::Response(r * g, k + l),
                        Signal::Latency(k) => Signal::Latency(k + l),
                        s => s,
                    }
                },
            );
        }
        out
    }
}
fn known<I: Size<f32>, O: Size<f32>>(g: f64) -> An<Known<I, O>> {
    An(Known(g, PhantomData))
}
macro_rules! k {
    ($($n:ident $i:ident $o:ident),*) => { $( fn $n(g: f64) -> An<Known<$i, $o>> { known(g) } )* };
}
k!(q01 U0 U1, q02 U0 U2, q11 U1 U1, q12 U1 U2, q21 U2 U1, q22 U2 U2);

type Frm = Vec<Signal>;

fn sum2(a: Signal, b: Signal, s: f64) -> Signal {
    use Signal::*;
    let z = Complex64::new(0.0, 0.0);
    match (a, b) {
        (Value(x), Value(y)) => Value(x + s * y),
        (Response(r, l), Response(q, k)) => Response(r + q * s, if l < k { l } else { k }),
        (Response(r, l), Value(_)) => Response(r + z, l),
        (Value(_), Response(q, k)) => Response(z + q * s, k),
        _ => lat2(a, b),
    }
}
fn lat(a: Signal) -> Option<f64> {
    match a {
        Signal::Response(_, l) | Signal::Latency(l) => Some(l),
        _ => None,
    }
}
/// The result has the smaller latency of those that are known.
fn lat2(a: Signal, b: Signal) -> Signal {
    match (lat(a), lat(b)) {
        (Some(l), Some(k)) => Signal::Latency(if l < k { l } else { k }),
        (Some(l), None) | (None, Some(l)) => Signal::Latency(l),
        _ => Signal::Unknown,
    }
}
fn mul2(a: Signal, b: Signal) -> Signal {
    use Signal::*;
    match (a, b) {
        (Value(x), Value(y)) => Value(x * y),
        (Response(r, l), Value(y)) => Response(r * y, l),
        (Value(x), Response(q, k)) => Response(q * x, k),
        _ => lat2(a, b),
    }
}
fn eval(e: &mut E, x: &[Signal], f: f64) -> Frm {
    match e {
        E::Leaf(u) => leaf_route(&mut **u, x, f),
        E::Pipe(a, b) => {
            let y = eval(a, x, f);
            eval(b, &y, f)
        }
        E::Stack(a, b) => {
            let k = a.ins();
            let mut y = eval(a, &x[..k], f);
            y.extend(eval(b, &x[k..], f));
            y
        }
        E::Branch(a, b) => {
            let mut y = eval(a, x, f);
            y.extend(eval(b, x, f));
            y
        }
        E::Bus(a, b) => zip2(eval(a, x, f), eval(b, x, f), |p, q| sum2(p, q, 1.0)),
        E::Bin(op, a, b) => {
            let k = a.ins();
            let (y, z) = (eval(a, &x[..k], f), eval(b, &x[k..], f));
            match op {
                Bop::Add => zip2(y, z, |p, q| sum2(p, q, 1.0)),
                Bop::Sub => zip2(y, z, |p, q| sum2(p, q, -1.0)),
                Bop::Mul => zip2(y, z, mul2),
            }
        }
        E::Un(op, a) => {
            let mut y = eval(a, x, f);
            for s in y.iter_mut() {
                *s = match op {
                    Uop::Neg => mul2(*s, Signal::Value(-1.0)),
                    Uop::Add(c) => sum2(*s, Signal::Value(*c as f64), 1.0),
                    Uop::NegAdd(c) => sum2(Signal::Value(*c as f64), *s, -1.0),
                    Uop::Mul(c) => mul2(*s, Signal::Value(*c as f64)),
                };
            }
            y
        }
        E::Thru(a) => {
            let k = a.ins();
            let mut y = eval(a, x, f);
            y.truncate(k);
            for c in y.len()..k {
                y.push(x[c]);
            }
            y
        }
    }
}
fn zip2(a: Frm, b: Frm, f: impl Fn(Signal, Signal) -> Signal) -> Frm {
    let mut o = vec![];
    for i in 0..a.len() {
        o.push(f(a[i], b[i]));
    }
    o
}
fn leaf_route(u: &mut dyn AudioUnit, x: &[Signal], f: f64) -> Frm {
    let mut i = SignalFrame::new(x.len());
    for c in 0..x.len() {
        i.set(c, x[c]);
    }
    let y = u.route(&i, f);
    (0..y.len()).map(|c| y.at(c)).collect()
}
fn agree(a: Signal, b: Signal) {
    use Signal::*;
    match (a, b) {
        (Unknown, Unknown) => (),
        (Value(x), Value(y)) => close64(x, y, 1e-6, 1e-6, "constant value differs"),
        (Latency(x), Latency(y)) => close64(x, y, 1e-9, 1e-9, "latency differs"),
        (Response(r, x), Response(q, y)) => {
            close64(x, y, 1e-9, 1e-9, "latency of a response differs");
            close64(r.re, q.re, 1e-6, 1e-6, "real part of the response differs");
            close64(r.im, q.im, 1e-6, 1e-6, "imaginary part of the response differs");
        }
        _ => check(false, "kind of signal differs"),
    }
}
fn any(n: usize) -> Signal {
    match choose(n) {
        0 => Signal::Response(Complex64::new(f64_in(-2.0, 2.0), f64_in(-2.0, 2.0)), f64_in(0.0, 100.0)),
        1 => Signal::Latency(f64_in(0.0, 100.0)),
        2 => Signal::Value(f64_in(-2.0, 2.0)),
        _ => Signal::Unknown,
    }
}
/// Compares the analysis of `u` with a reference function of the input signals.
fn against(u: &mut dyn AudioUnit, ins: usize, outs: usize, mut f: impl FnMut(&[Signal], f64) -> Frm) {
    check(u.inputs() == ins && u.outputs() == outs, "number of channels");
    match choose(3) {
        0 => {
            let mut x = vec![];
            for _ in 0..ins {
                x.push(any(if ins <= 2 { 4 } else { 3 }));
            }
            let freq = f64_in(20.0, 20000.0);
            let y = leaf_route(u, &x, freq);
            let w = f(&x, freq);
            check(y.len() == w.len() && w.len() == outs, "number of output signals");
            for c in 0..w.len() {
                agree(y[c], w[c]);
            }
        }
        1 => {
            let freq = f64_in(20.0, 20000.0);
            let x = vec![Signal::Response(Complex64::new(1.0, 0.0), 0.0); ins];
            let w = f(&x, freq);
            for c in 0..outs {
                match (u.response(c, freq), w[c]) {
                    (Some(r), Signal::Response(q, _)) => {
                        close64(r.re, q.re, 1e-6, 1e-6, "real part of the response differs");
                        close64(r.im, q.im, 1e-6, 1e-6, "imaginary part of the response differs");
                    }
                    (None, Signal::Response(..)) => check(false, "no response reported"),
                    (Some(_), _) => check(false, "response reported where there is none"),
                    _ => (),
                }
            }
        }
        _ => {
            let x = vec![Signal::Latency(0.0); ins];
            let w = f(&x, 1.0);
            let mut l: Option<f64> = None;
            for c in 0..outs {
                if let Signal::Latency(x) = w[c] {
                    l = Some(if let Some(y) = l { if x < y { x } else { y } } else { x });
                }
            }
            match (u.latency(), l) {
                (None, None) => (),
                (Some(x), Some(y)) => close64(x, y, 1e-9, 1e-9, "latency differs"),
                _ => check(false, "existence of latency differs"),
            }
        }
    }
}
fn against_e(u: &mut dyn AudioUnit, mut e: E) {
    let (i, o) = (e.ins(), e.outs());
    against(u, i, o, |x, f| eval(&mut e, x, f))
}
fn wrap<X: AudioNode + 'static>(x: An<X>) -> Net
where
    X::Inputs: Size<f32>,
    X::Outputs: Size<f32>,
{
    Net::wrap(Box::new(x))
}
fn gi(i: u64) -> f64 {
    0.25 * i as f64 + 0.125
}
fn lr<X: AudioNode + 'static>(x: An<X>, s: &[Signal], f: f64) -> Frm
where
    X::Inputs: Size<f32>,
    X::Outputs: Size<f32>,
{
    let mut x = x;
    leaf_route(&mut x, s, f)
}
fn dist(s: Signal) -> Signal {
    lat2(s, Signal::Unknown)
}
/// every input influences every output nonlinearly
fn arb(x: &[Signal], outs: usize, l: f64) -> Frm {
    let mut s = Signal::Unknown;
    for i in x {
        s = lat2(s, *i);
    }
    if let Signal::Latency(k) = s {
        s = Signal::Latency(k + l);
    }
    vec![s; outs]
}
fn gen(outs: usize) -> Frm {
    vec![Signal::Latency(0.0); outs]
}
fn add_all(x: &[Signal]) -> Signal {
    let mut s = x[0];
    for i in &x[1..] {
        s = sum2(s, *i, 1.0);
    }
    s
}

macro_rules! cases {
    ($p:literal, $x:ident, $y:ident, $c:ident; $($n:ident : $e:expr;)*) => {
        mod ops {
            use super::*;
            $( #[inline(never)] pub fn $n() {
                let $c = f32_in(-2.0, 2.0);
                let _ = $c;
                let r: E = {
                    macro_rules! $x { ($l:expr) => { leaf($l) } }
                    macro_rules! $y { ($l:expr) => { leaf($l) } }
                    $e
                };
                match choose(2) {
                    0 => {
                        let mut u = {
                            macro_rules! $x { ($l:expr) => { $l } }
                            macro_rules! $y { ($l:expr) => { $l } }
                            $e
                        };
                        against_e(&mut u, r);
                    }
                    _ => {
                        let mut u: Net = {
                            macro_rules! $x { ($l:expr) => { wrap($l) } }
                            macro_rules! $y { ($l:expr) => { wrap($l) } }
                            $e
                        };
                        against_e(&mut u, r);
                    }
                }
            } )*
        }
        harnesses! { $p;
            $( $n : { ops::$n() }; )*
            busi: against(&mut busi::<U3, _, _>(|i| q12(gi(i))), 1, 2, |x, f| {
                zip2(zip2(lr(q12(gi(0)), x, f), lr(q12(gi(1)), x, f), |p, q| sum2(p, q, 1.0)), lr(q12(gi(2)), x, f), |p, q| sum2(p, q, 1.0)) });
            stacki: against(&mut stacki::<U3, _, _>(|i| q12(gi(i))), 3, 6, |x, f| {
                let mut y = vec![];
                for i in 0..3 { y.extend(lr(q12(gi(i as u64)), &x[i..i + 1], f)); }
                y });
            stacki21: against(&mut stacki::<U2, _, _>(|i| q21(gi(i))), 4, 2, |x, f| {
                let mut y = vec![];
                for i in 0..2 { y.extend(lr(q21(gi(i as u64)), &x[2 * i..2 * i + 2], f)); }
                y });
            stacki_join: against(&mut stacki::<U2, _, _>(|_| join::<U2>()), 4, 2, |x, _| {
                vec![mul2(sum2(x[0], x[1], 1.0), half(x)), mul2(sum2(x[2], x[3], 1.0), half(x))] });
            branchi: against(&mut branchi::<U3, _, _>(|i| q12(gi(i))), 1, 6, |x, f| {
                let mut y = vec![];
                for i in 0..3 { y.extend(lr(q12(gi(i)), x, f)); }
                y });
            branchf: against(&mut branchf::<U2, _, _>(|i| q22(i as f64)), 2, 4, |x, f| {
                let mut y = lr(q22(0.0), x, f);
                y.extend(lr(q22(1.0), x, f));
                y });
            sumi: against(&mut sumi::<U3, _, _>(|i| q12(gi(i))), 3, 2, |x, f| {
                zip2(zip2(lr(q12(gi(0)), &x[..1], f), lr(q12(gi(1)), &x[1..2], f), |p, q| sum2(p, q, 1.0)), lr(q12(gi(2)), &x[2..], f), |p, q| sum2(p, q, 1.0)) });
            sumi_join: against(&mut sumi::<U2, _, _>(|_| join::<U2>()), 4, 1, |x, _| {
                vec![sum2(mul2(sum2(x[0], x[1], 1.0), half(x)), mul2(sum2(x[2], x[3], 1.0), half(x)), 1.0)] });
            pipei: against(&mut pipei::<U3, _, _>(|i| q22(gi(i))), 2, 2, |x, f| {
                let a = lr(q22(gi(0)), x, f);
                let b = lr(q22(gi(1)), &a, f);
                lr(q22(gi(2)), &b, f) });
            split3: against(&mut split::<U3>(), 1, 3, |x, _| vec![x[0]; 3]);
            multisplit22: against(&mut multisplit::<U2, U2>(), 2, 4, |x, _| vec![x[0], x[1], x[0], x[1]]);
            join3: against(&mut join::<U3>(), 3, 1, |x, _| vec![mul2(add_all(x), Signal::Value(1.0 / 3.0))]);
            multijoin22: against(&mut multijoin::<U2, U2>(), 4, 2, |x, _| vec![mul2(sum2(x[0], x[2], 1.0), half(x)), mul2(sum2(x[1], x[3], 1.0), half(x))]);
            reverse3: against(&mut reverse::<U3>(), 3, 3, |x, _| vec![x[2], x[1], x[0]]);
            pass: against(&mut (pass() | multipass::<U2>()), 3, 3, |x, _| x.to_vec());
            sinks: against(&mut (sink() | pass() | multisink::<U2>()), 4, 1, |x, _| vec![x[1]]);
            dc: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut (dc((a, b)) | zero()), 0, 3, |_, _| vec![Signal::Value(a as f64), Signal::Value(b as f64), Signal::Value(0.0)]) };
            add2: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut add((a, b)), 2, 2, |x, _| vec![sum2(x[0], Signal::Value(a as f64), 1.0), sum2(x[1], Signal::Value(b as f64), 1.0)]) };
            mul2_: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut mul((a, b)), 2, 2, |x, _| vec![mul2(x[0], Signal::Value(a as f64)), mul2(x[1], Signal::Value(b as f64))]) };
            sub2: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut sub((a, b)), 2, 2, |x, _| vec![sum2(x[0], Signal::Value(a as f64), -1.0), sum2(x[1], Signal::Value(b as f64), -1.0)]) };
            pan: against(&mut pan(0.0), 1, 2, |x, _| { let w = Signal::Value(0.5f64.sqrt()); vec![mul3(x[0], w), mul3(x[0], w)] });
            rotate: against(&mut rotate(0.0, 2.0), 2, 2, |x, _| { let (t, z) = (Signal::Value(2.0), Signal::Value(0.0));
                vec![sum2(mul3(x[0], t), mul3(x[1], z), 1.0), sum2(mul3(x[0], z), mul3(x[1], t), 1.0)] });
            generators: { let mut u: Box<dyn AudioUnit> = match choose(10) {
                    0 => Box::new(noise()), 1 => Box::new(impulse::<U2>()), 2 => Box::new(mls()),
                    3 => Box::new(envelope(|t| (t, t))), 4 => Box::new(lfo(|t| t)), 5 => Box::new(Sequencer::new(false, 2)),
                    6 => Box::new(noise() | noise()), 7 => Box::new(white() >> pass()), 8 => Box::new(Net::wrap(Box::new(noise()))),
                    _ => Box::new(unit::<U0, U1>(Box::new(noise()))) };
                let n = u.outputs();
                against(&mut *u, 0, n, |_, _| gen(n)) };
            limited_noise: { let t = [0.01f32, 0.001, 0.1][choose(3)];
                let mut u = noise() >> limiter(t, 0.2);
                let sr = [44100.0, 48000.0, 96000.0][choose(3)];
                u.set_sample_rate(sr);
                match u.latency() { Some(l) => close64(l, t as f64 * sr, 0.501, 0.0, "latency of a limited generator"), None => check(false, "no latency") } };
            limiter2: { let mut u = limiter_stereo(0.01, 0.2);
                against(&mut u, 2, 2, |x, _| vec![later(x[0], 441.0), later(x[1], 441.0)]) };
            arbitrary2: against(&mut (dsf_saw()), 2, 1, |x, _| arb(x, 1, 0.0));
            feedback: against(&mut feedback2(pass() | pass(), multipass::<U2>()), 2, 2, |x, _| arb(x, 2, 0.0));
            resynth: against(&mut resynth::<U2, U2, _>(64, |_| {}), 2, 2, |x, _| arb(x, 2, 64.0));
            shapes: against(&mut (shape(Tanh(1.0)) | shape_fn(|x| x * x)), 2, 2, |x, _| vec![dist(x[0]), dist(x[1])]);
            wrappers: { let mut u: Box<dyn AudioUnit> = match choose(5) {
                    0 => Box::new(unit::<U2, U2>(Box::new(q22(0.5)))), 1 => Box::new(BlockRateAdapter2(q22(0.5))), 2 => Box::new(Net::wrap(Box::new(q22(0.5)))),
                    3 => { let mut n = Net::wrap(Box::new(q22(0.5))); Box::new(n.backend()) }
                    _ => Box::new(Slot::new(Box::new(q22(0.5))).1) };
                against(&mut *u, 2, 2, |x, f| lr(q22(0.5), x, f)) };
            net_open: { // unconnected inputs and outputs are zero
                let mut n = Net::new(1, 4);
                let a = n.push(Box::new(q22(0.5)));
                n.connect_input(0, a, 1);
                n.connect_output(a, 1, 0);
                n.connect_output(a, 0, 2);
                n.pass_through(0, 3);
                against(&mut n, 1, 4, |x, f| { let y = lr(q22(0.5), &[Signal::Value(0.0), x[0]], f); vec![y[1], Signal::Value(0.0), y[0], x[0]] }) };
        }
    };
}
fn half(_: &[Signal]) -> Signal {
    Signal::Value(0.5)
}
/// scaling of panners and mixers keeps latencies and unknown signals
fn mul3(a: Signal, b: Signal) -> Signal {
    mul2(a, b)
}
fn later(s: Signal, l: f64) -> Signal {
    match s {
        Signal::Response(r, k) => Signal::Response(r, k + l),
        Signal::Latency(k) => Signal::Latency(k + l),
        s => s,
    }
}
#[derive(Clone)]
struct Fwd<X: AudioNode>(X);
#[allow(non_snake_case)]
fn BlockRateAdapter2<X: AudioNode + 'static>(x: An<X>) -> impl AudioUnit
where
    X::Inputs: Size<f32>,
    X::Outputs: Size<f32>,
{
    // a listener forwards the analysis to its node
    listen(x).1
}
expressions!(cases, "c11");
