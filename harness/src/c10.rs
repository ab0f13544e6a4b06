//! C10: settings reach exactly the node they are addressed to and mean what the constructor means.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;
use fundsp::net::NodeId;
use std::marker::PhantomData;

/// A probe that changes its own value at given samples, and can also be set.
#[derive(Clone)]
pub struct L<I: Size<f32>, O: Size<f32>> {
    p: An<Probe<I, O>>,
    plan: Option<(f32, f32)>,
    n: usize,
}
/// samples before the first and between the settings
const T0: usize = 1;
const T1: usize = 4;
impl<I: Size<f32>, O: Size<f32>> AudioNode for L<I, O> {
    const ID: u64 = 9002;
    type Inputs = I;
    type Outputs = O;
    fn tick(&mut self, x: &Frame<f32, I>) -> Frame<f32, O> {
        if let Some((a, b)) = self.plan {
            if self.n == T0 {
                self.p.set(Setting::value(a));
            }
            if self.n == T0 + T1 {
                self.p.set(Setting::value(b));
            }
        }
        self.n += 1;
        self.p.tick(x)
    }
    fn set(&mut self, s: Setting) {
        self.p.set(s);
    }
}
type Plan = Option<(f32, f32)>;
fn l<I: Size<f32>, O: Size<f32>>(g: f32, plan: Plan) -> An<L<I, O>> {
    An(L { p: An(Probe::plain(g)), plan, n: 0 })
}
fn l11(g: f32, p: Plan) -> An<L<U1, U1>> {
    l(g, p)
}
fn l12(g: f32, p: Plan) -> An<L<U1, U2>> {
    l(g, p)
}
fn l21(g: f32, p: Plan) -> An<L<U2, U1>> {
    l(g, p)
}

/// `make(plans)` builds the graph with `n` leaves, `addr(setting, k)` addresses leaf `k`; address `n` names no leaf.
fn addressed(n: usize, make: impl Fn(&dyn Fn(usize) -> Plan) -> Box<dyn AudioUnit>, addr: impl Fn(Setting, usize) -> Setting) {
    let k = choose(n + 1);
    let a = f32_in(-1.0, 1.0);
    let b = f32_in(-1.0, 1.0);
    let mut u = make(&|_| None);
    let mut w = make(&|i| if i == k { Some((a, b)) } else { None });
    compare(&mut *u, &mut *w, |u, v| u.set(addr(Setting::value(v), k)), a, b);
}
fn compare(u: &mut dyn AudioUnit, w: &mut dyn AudioUnit, mut set: impl FnMut(&mut dyn AudioUnit, f32), a: f32, b: f32) {
    let n = T0 + T1 + 3;
    let mut r = vec![];
    for _ in 0..u.inputs() {
        r.push(A);
    }
    let x = signal(&r, n);
    let z = by_tick(w, &x, n);
    let block = choose(2) == 1;
    let mut p = 0;
    for (k, &s) in [T0, T1, 3].iter().enumerate() {
        if k == 1 {
            set(u, a);
        }
        if k == 2 {
            set(u, b);
        }
        let v: Vec<Vec<f32>> = x.iter().map(|c| c[p..p + s].to_vec()).collect();
        let y = if block { by_block(u, &v, 0, &[s]) } else { by_tick(u, &v, s) };
        for c in 0..y.len() {
            for i in 0..s {
                close(y[c][i], z[c][p + i], 1e-5, "the setting did not change exactly the node that it addresses");
            }
        }
        p += s;
    }
}
fn lr(s: Setting, k: usize) -> Setting {
    match k {
        0 => s.left(),
        1 => s.right(),
        _ => s.index(0),
    }
}
fn ix(s: Setting, k: usize) -> Setting {
    if k < 3 { s.index(k) } else { s.left() }
}
macro_rules! bin {
    ($f:ident, $g:ident, $op:tt) => {
        addressed(2, |p| Box::new($f(0.5, p(0)) $op $g(0.25, p(1))), lr)
    };
}
const GI: [f32; 3] = [0.5, 0.25, 0.75];
fn through(u: &dyn Fn(Plan) -> Box<dyn AudioUnit>) {
    let k = choose(2);
    let a = f32_in(-1.0, 1.0);
    let b = f32_in(-1.0, 1.0);
    let mut v = u(None);
    let mut w = u(if k == 0 { Some((a, b)) } else { None });
    compare(&mut *v, &mut *w, |v, x| v.set(if k == 0 { Setting::value(x) } else { Setting::value(x).left() }), a, b);
}
/// A network in a network in a network operator, with an operator and an indexed structure inside.
fn nets(back: bool) {
    let k = choose(8);
    let a = f32_in(-1.0, 1.0);
    let b = f32_in(-1.0, 1.0);
    let make = |k: usize| {
        let p = |i: usize| if i == k { Some((a, b)) } else { None };
        let mut inner = Net::new(1, 1);
        let i0 = inner.chain(Box::new(l11(0.5, p(0))));
        let i1 = inner.chain(Box::new(l11(0.25, p(1)) >> l11(0.75, p(2))));
        let mut net = Net::new(1, 1);
        let j0 = net.chain(Box::new(l11(0.375, p(3))));
        let j1 = net.chain(Box::new(inner));
        let j2 = net.chain(Box::new(stacki::<U2, _, _>(|i| l11(GI[i as usize], p(4 + i as usize)))));
        net.connect(j1, 0, j2, 1);
        let (other, m0) = Net::wrap_id(Box::new(l11(0.125, p(6))));
        let net = net >> other;
        (net, [i0, i1, j0, j1, j2, m0])
    };
    let (mut net, id) = make(99);
    let (mut w, _) = make(k);
    let addr = |s: Setting| match k {
        0 => s.node(id[3]).node(id[0]),
        1 => s.node(id[3]).node(id[1]).left(),
        2 => s.node(id[3]).node(id[1]).right(),
        3 => s.node(id[2]),
        4 => s.node(id[4]).index(0),
        5 => s.node(id[4]).index(1),
        6 => s.node(id[5]),
        _ => s.node(NodeId::new()),
    };
    if back {
        let mut u = net.backend();
        compare(&mut u, &mut w, |_, v| net.set(addr(Setting::value(v))), a, b);
    } else {
        compare(&mut net, &mut w, |u, v| u.set(addr(Setting::value(v))), a, b);
    }
}
fn net_binary() {
    let k = choose(3);
    let a = f32_in(-1.0, 1.0);
    let b = f32_in(-1.0, 1.0);
    let op = choose(5);
    let make = |k: usize| {
        let p = |i: usize| if i == k { Some((a, b)) } else { None };
        let (x, i) = Net::wrap_id(Box::new(l11(0.5, p(0))));
        let (y, j) = Net::wrap_id(Box::new(l11(0.25, p(1))));
        let n = match op {
            0 => x | y,
            1 => x & y,
            2 => x ^ y,
            3 => x * y,
            _ => x - y,
        };
        (n, i, j)
    };
    let (mut u, i, j) = make(9);
    let (mut w, _, _) = make(k);
    compare(&mut u, &mut w, |u, v| u.set(match k { 0 => Setting::value(v).node(i), 1 => Setting::value(v).node(j), _ => Setting::value(v).node(NodeId::new()) }), a, b);
}
/// Listener: settings sent between blocks arrive in order before the next block.
fn listener() {
    let k = choose(3);
    let a = f32_in(-1.0, 1.0);
    let b = f32_in(-1.0, 1.0);
    let make = |k: usize| {
        let p = |i: usize| if i == k { Some((a, b)) } else { None };
        l12(0.5, p(0)) >> l21(0.25, p(1))
    };
    let (s, mut u) = listen(make(9));
    let s2 = s.clone();
    let mut w = make(k);
    let twice = choose(2) == 1;
    let direct = choose(2) == 1;
    compare(
        &mut u,
        &mut w,
        |u, v| {
            if twice {
                check(s2.try_send(lr(Setting::value(0.625), k)).is_ok(), "setting is accepted");
            }
            if direct && !twice {
                u.set(lr(Setting::value(v), k));
            } else {
                check(s.try_send(lr(Setting::value(v), k)).is_ok(), "setting is accepted");
            }
        },
        a,
        b,
    );
}
/// The listener also handles settings that arrive before a reset, sample rate change or query.
fn listener_early() {
    let (s, mut u) = listen(dc((0.5, 0.25)) >> q21(0.5));
    let v = f32_in(-1.0, 1.0);
    check(s.try_send(Setting::value(v).left()).is_ok(), "setting is accepted");
    let mut w = dc((v, v)) >> q21(0.5);
    match choose(3) {
        0 => {
            u.reset();
        }
        1 => {
            u.set_sample_rate(48000.0);
            w.set_sample_rate(48000.0);
        }
        _ => u.allocate(),
    }
    let y = by_block(&mut u, &[], 0, &[3]);
    let z = by_tick(&mut w, &[], 3);
    near(&y, &z, 1e-5, "the setting did not change exactly the node that it addresses");
}
fn block_rate() {
    let v = f32_in(-1.0, 1.0);
    let mut u = BlockRateAdapter::new(Box::new(dc(0.5) >> q11(0.5)));
    u.set(Setting::value(v).left());
    let mut w = dc(v) >> q11(0.5);
    let y = by_block(&mut u, &[], 0, &[3]);
    let z = by_tick(&mut w, &[], 3);
    near(&y, &z, 1e-5, "the setting did not change exactly the node that it addresses");
}
type P3 = [f32; 3];
/// Ranges of parameters.
const FQ: [R; 3] = [F, Q, G];
fn p3(r: &[R; 3]) -> P3 {
    [f32_in(r[0].lo, r[0].hi), f32_in(r[1].lo, r[1].hi), f32_in(r[2].lo, r[2].hi)]
}
/// A setting means the same as constructing with the parameters, and does not disturb the state.
/// `set(p)` sets the first `n` parameters.
fn means(r: [R; 3], n: usize, ins: &[R], make: impl Fn(P3) -> Box<dyn AudioUnit>, set: impl Fn(P3) -> Setting) {
    let a = p3(&r);
    let mut b = p3(&r);
    for i in n..3 {
        b[i] = a[i];
    }
    let mut u = make(a);
    let mut w = make(b);
    match choose(3) {
        0 => u.set(set(b)),
        1 => {
            u.set_sample_rate(48000.0);
            w.set_sample_rate(48000.0);
            u.set(set(b));
        }
        _ => {
            u.set(set(b));
            u.set_sample_rate(48000.0);
            w.set_sample_rate(48000.0);
        }
    }
    let x = steady(ins, 9);
    let block = choose(2) == 1;
    let y = if block { by_block(&mut *u, &x, 0, &[9]) } else { by_tick(&mut *u, &x, 9) };
    let z = if block { by_block(&mut *w, &x, 0, &[9]) } else { by_tick(&mut *w, &x, 9) };
    near(&y, &z, 1e-5, "a setting differs from constructing with the parameter");
    // the later state is not disturbed
    if !block {
        let mut u = make(a);
        let mut w = make(a);
        let y = by_tick(&mut *u, &x, 4);
        let z = by_tick(&mut *w, &x, 4);
        near(&y, &z, 1e-6, "construction is deterministic");
        u.set(set(b));
        u.set(set(a));
        let y = by_tick(&mut *u, &x, 5);
        let z = by_tick(&mut *w, &x, 5);
        near(&y, &z, 1e-5, "a setting disturbs the state");
    }
}
fn center(ins: &[R], make: impl Fn(P3) -> Box<dyn AudioUnit>) {
    means(FQ, 1, ins, make, |p| Setting::center(p[0]))
}
/// center_q and center
fn center_q(ins: &[R], make: impl Fn(P3) -> Box<dyn AudioUnit>) {
    if choose(2) == 1 { means(FQ, 2, ins, make, |p| Setting::center_q(p[0], p[1])) } else { center(ins, make) }
}
/// center_q_gain, center_q and center
fn center_q_gain(ins: &[R], make: impl Fn(P3) -> Box<dyn AudioUnit>) {
    if choose(2) == 1 { means(FQ, 3, ins, make, |p| Setting::center_q_gain(p[0], p[1], p[2])) } else { center_q(ins, make) }
}
const ONE: &[R] = &[A];
const UNIT: [R; 3] = [U, U, U];
/// A setting that takes effect at the next reset.
fn on_reset(ins: &[R], make: impl Fn() -> Box<dyn AudioUnit>, built: impl Fn(f32) -> Box<dyn AudioUnit>, set: impl Fn(f32) -> Setting) {
    let v = if ins.len() > 0 && ins[0].lo == ins[0].hi { choose(4) as f32 * 0.25 } else { f32_in(0.0, 1.0) };
    let mut u = make();
    let x = steady(ins, 6);
    if choose(2) == 1 {
        by_tick(&mut *u, &x, 2);
    }
    u.set(set(v));
    u.reset();
    let mut w = built(v);
    w.reset();
    let y = by_tick(&mut *u, &x, 6);
    let z = by_tick(&mut *w, &x, 6);
    near(&y, &z, 1e-6, "a setting differs from constructing with the parameter");
}
fn seeds(make: impl Fn() -> Box<dyn AudioUnit>, built: impl Fn(u64) -> Box<dyn AudioUnit>, left: bool) {
    let s = [0, 1, 7, 0x1234_5678_9abc][choose(4)];
    let mut u = make();
    if choose(2) == 1 {
        by_tick(&mut *u, &[], 2);
    }
    u.set(if left { Setting::seed(s).left() } else { Setting::seed(s) });
    u.reset();
    let mut w = built(s);
    let y = by_block(&mut *u, &[], 0, &[9]);
    let z = by_block(&mut *w, &[], 0, &[9]);
    near(&y, &z, 1e-6, "a setting differs from constructing with the parameter");
}
fn coefs() -> [f32; 5] {
    [f32_in(-1.0, 1.0), f32_in(-0.5, 0.5), f32_in(-1.0, 1.0), f32_in(-1.0, 1.0), f32_in(-1.0, 1.0)]
}
fn biquads() {
    let (a, b) = (coefs(), coefs());
    let mk = |c: [f32; 5]| biquad(c[0], c[1], c[2], c[3], c[4]);
    let st = |c: [f32; 5]| Setting::biquad(c[0], c[1], c[2], c[3], c[4]);
    let mut u = mk(a);
    let mut w = mk(b);
    u.set(st(b));
    let x = steady(ONE, 6);
    near(&by_tick(&mut u, &x, 6), &by_tick(&mut w, &x, 6), 1e-5, "a setting differs from constructing with the parameter");
    u.set(st(a));
    u.set(st(b));
    near(&by_tick(&mut u, &x, 2), &by_tick(&mut w, &x, 2), 1e-5, "a setting disturbs the state");
}
/// Channel `k` of the bank is a biquad with the coefficients last set for it, the others are silent.
fn bank() {
    let (a, b) = (coefs(), coefs());
    let st = |c: [f32; 5]| Setting::biquad(c[0], c[1], c[2], c[3], c[4]);
    let mut u = biquad_bank();
    let k = choose(4);
    let j = choose(4);
    u.set(st(a).index(k));
    u.set(st(b).index(j));
    let x = steady(&[A; 4], 4);
    let y = by_tick(&mut u, &x, 4);
    for c in 0..4 {
        let q = if c == j { b } else if c == k { a } else { [0.0; 5] };
        let mut w = biquad(q[0], q[1], q[2], q[3], q[4]);
        let z = by_tick(&mut w, &[x[c].clone()], 4);
        for i in 0..4 {
            close(y[c][i], z[0][i], 1e-5, "bank channel is not the biquad that was set");
        }
    }
}
fn variability(a: f32, b: f32) {
    let mut u = hold(a);
    let mut w = hold(b);
    u.set(Setting::variability(b));
    let x = [signal(ONE, 12).remove(0), [15000.0; 12].to_vec()];
    near(&by_tick(&mut u, &x, 12), &by_tick(&mut w, &x, 12), 1e-6, "a setting differs from constructing with the parameter");
}
fn subsample() {
    let mut u = lowpass();
    let mut w = lowpass().subsample(3);
    u.set(Setting::subsample(3));
    let x = steady(&[A, F, Q], 6);
    near(&by_tick(&mut u, &x, 6), &by_tick(&mut w, &x, 6), 1e-6, "a setting differs from constructing with the parameter");
}
fn interval() {
    let mut u = lfo(|t| t * 1000.0);
    let mut w = lfo(|t| t * 1000.0).interval(0.0001);
    u.set(Setting::interval(0.0001));
    u.reset();
    w.reset();
    near(&by_tick(&mut u, &[], 9), &by_tick(&mut w, &[], 9), 1e-6, "a setting differs from constructing with the parameter");
}
harnesses! { "c10";
    pipe: bin!(l12, l21, >>); stack: bin!(l12, l21, |); branch: bin!(l11, l12, ^); bus: bin!(l11, l11, &);
    sum: bin!(l12, l12, +); sub: bin!(l12, l12, -); mul: bin!(l12, l12, *);
    deep4: addressed(5, |p| Box::new((((l11(0.5, p(0)) >> l11(0.25, p(1))) + l11(0.75, p(2))) >> l12(0.5, p(3))) | l11(0.125, p(4))),
        |s, k| match k { 0 => s.left().left().left().left(), 1 => s.left().left().left().right(), 2 => s.left().left().right(), 3 => s.left().right(), 4 => s.right(), _ => s.left().index(2) });
    deep_mixed: addressed(4, |p| Box::new(l11(0.5, p(3)) >> busi::<U3, _, _>(|i| l11(GI[i as usize], p(i as usize)) >> mul(0.5))),
        |s, k| match k { 3 => s.left(), 4 => s.right().right(), k => s.right().index(k).left() });
    busi: addressed(3, |p| Box::new(busi::<U3, _, _>(|i| l12(GI[i as usize], p(i as usize)))), ix);
    stacki: addressed(3, |p| Box::new(stacki::<U3, _, _>(|i| l12(GI[i as usize], p(i as usize)))), ix);
    branchi: addressed(3, |p| Box::new(branchi::<U3, _, _>(|i| l12(GI[i as usize], p(i as usize)))), ix);
    sumi: addressed(3, |p| Box::new(sumi::<U3, _, _>(|i| l12(GI[i as usize], p(i as usize)))), ix);
    pipei: addressed(3, |p| Box::new(pipei::<U3, _, _>(|i| l11(GI[i as usize], p(i as usize)))), ix);
    busf: addressed(3, |p| Box::new(busf::<U3, _, _>(|f| { let i = (f * 2.0 + 0.5) as usize; l11(GI[i], p(i)) })), ix);
    thru: through(&|p| Box::new(!l21(0.5, p)));
    neg: through(&|p| Box::new(-l12(0.5, p)));
    add_scalar: through(&|p| Box::new(l12(0.5, p) + 2.0));
    boxed: through(&|p| { let b: Box<dyn AudioUnit> = Box::new(l11(0.5, p)); Box::new(unit::<U1, U1>(b)) });
    update: through(&|p| Box::new(update(l11(0.5, p), 1.0, |_, _, _| ())));
    block_rate: block_rate();
    big: through(&|p| Box::new(BigBlockAdapter::new(Box::new(l11(0.5, p)))));
    nets: nets(false); nets_backend: nets(true); net_binary: net_binary(); listener: listener(); listener_early: listener_early();
    afollow: means([ctl(0.001, 0.1), ctl(0.001, 0.1), U], 2, ONE, |p| Box::new(afollow(p[0], p[1])), |p| Setting::attack_release(p[0], p[1]));
    follow: means([ctl(0.001, 0.1), U, U], 1, ONE, |p| Box::new(follow(p[0])), |p| Setting::time(p[0]));
    allpole: means([ctl(0.5, 1.5), U, U], 1, ONE, |p| Box::new(allpole_delay(p[0])), |p| Setting::delay(p[0]));
    constant: means([B, U, U], 1, &[], |p| Box::new(constant((p[0], p[0]))), |p| Setting::value(p[0]));
    dc: means([B, U, U], 1, &[], |p| Box::new(dc(p[0])), |p| Setting::value(p[0]));
    pan: means([B, U, U], 1, ONE, |p| Box::new(pan(p[0])), |p| Setting::pan(p[0]));
    hold: { let c = [0.0, 0.25, 1.0]; let (a, b) = (c[choose(3)], c[choose(3)]); variability(a, b) };
    dsf_saw: means([ctl(0.1, 0.9), U, U], 1, &[F], |p| Box::new(dsf_saw_r(p[0])), |p| Setting::roughness(p[0]));
    dsf_square: means([ctl(0.1, 0.9), U, U], 1, &[F], |p| Box::new(dsf_square_r(p[0])), |p| Setting::roughness(p[0]));
    butterpass: center(ONE, |p| Box::new(butterpass_hz(p[0])));
    lowpole: center(ONE, |p| Box::new(lowpole_hz(p[0])));
    highpole: center(ONE, |p| Box::new(highpole_hz(p[0])));
    dcblock: center(ONE, |p| Box::new(dcblock_hz(p[0])));
    lowpass: center_q(ONE, |p| Box::new(lowpass_hz(p[0], p[1])));
    highpass: center_q(ONE, |p| Box::new(highpass_hz(p[0], p[1])));
    bandpass: center_q(ONE, |p| Box::new(bandpass_hz(p[0], p[1])));
    notch: center_q(ONE, |p| Box::new(notch_hz(p[0], p[1])));
    peak: center_q(ONE, |p| Box::new(peak_hz(p[0], p[1])));
    allpass: center_q(ONE, |p| Box::new(allpass_hz(p[0], p[1])));
    resonator: center_q(ONE, |p| Box::new(resonator_hz(p[0], p[1])));
    moog: center_q(ONE, |p| Box::new(moog_hz(p[0], p[1])));
    lowrez: center_q(ONE, |p| Box::new(lowrez_hz(p[0], p[1])));
    bandrez: center_q(ONE, |p| Box::new(bandrez_hz(p[0], p[1])));
    bell: center_q_gain(ONE, |p| Box::new(bell_hz(p[0], p[1], p[2])));
    lowshelf: center_q_gain(ONE, |p| Box::new(lowshelf_hz(p[0], p[1], p[2])));
    highshelf: center_q_gain(ONE, |p| Box::new(highshelf_hz(p[0], p[1], p[2])));
    dlowpass: center_q(ONE, |p| Box::new(dlowpass_hz(Softsign(0.5), p[0], p[1])));
    dhighpass: center_q(ONE, |p| Box::new(dhighpass_hz(Softsign(0.5), p[0], p[1])));
    dresonator: center_q(ONE, |p| Box::new(dresonator_hz(Softsign(0.5), p[0], p[1])));
    dbell: center_q_gain(ONE, |p| Box::new(dbell_hz(Softsign(0.5), p[0], p[1], p[2])));
    flowpass: center_q(ONE, |p| Box::new(flowpass_hz(Softsign(0.5), p[0], p[1])));
    fhighpass: center_q(ONE, |p| Box::new(fhighpass_hz(Softsign(0.5), p[0], p[1])));
    fresonator: center_q(ONE, |p| Box::new(fresonator_hz(Softsign(0.5), p[0], p[1])));
    fbell: center_q_gain(ONE, |p| Box::new(fbell_hz(Softsign(0.5), p[0], p[1], p[2])));
    biquads: biquads(); bank: bank(); subsample: subsample(); interval: interval();
    phase_sine: on_reset(&[F], || Box::new(sine()), |v| Box::new(sine().phase(v)), |v| Setting::phase(v));
    phase_ramp: on_reset(&[F], || Box::new(ramp()), |v| Box::new(ramp().phase(v)), |v| Setting::phase(v));
    phase_dsf: on_reset(&[F], || Box::new(dsf_saw_r(0.5)), |v| Box::new(dsf_saw_r(0.5).phase(v)), |v| Setting::phase(v));
    phase_poly_saw: on_reset(&[ctl(440.0, 440.0)], || Box::new(poly_saw()), |v| Box::new(poly_saw().phase(v)), |v| Setting::phase(v));
    phase_poly_square: on_reset(&[ctl(440.0, 440.0)], || Box::new(poly_square()), |v| Box::new(poly_square().phase(v)), |v| Setting::phase(v));
    phase_sine_hz: on_reset(&[], || Box::new(sine_hz(440.0)), |v| Box::new(sine_hz(440.0).phase(v)), |v| Setting::phase(v).right());
    seed_noise: seeds(|| Box::new(noise()), |s| Box::new(noise().seed(s)), false);
    seed_mls: seeds(|| Box::new(mls()), |s| Box::new(mls().seed(s)), false);
    seed_pink: seeds(|| Box::new(pink()), |s| Box::new(pink().seed(s)), true);
}
