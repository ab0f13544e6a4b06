//! C15: deterministic pseudorandom phase. Generators depend on graph structure and location only, every container
//! hands the hash on to its contents, and seeds and phases override it.
use crate::prim::*;
use crate::util::*;
use fundsp::hacker::*;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static REC: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
static CNT: AtomicU64 = AtomicU64::new(0);

/// Records the hash it is given.
#[derive(Clone)]
pub struct Hp<I: Size<f32>, O: Size<f32>>(usize, PhantomData<(I, O)>);
impl<I: Size<f32>, O: Size<f32>> AudioNode for Hp<I, O> {
    const ID: u64 = 9003;
    type Inputs = I;
    type Outputs = O;
    fn tick(&mut self, _: &Frame<f32, I>) -> Frame<f32, O> {
        Frame::generate(|_| 0.0)
    }
    fn set_hash(&mut self, hash: u64) {
        REC[self.0].store(hash, Relaxed);
        CNT.fetch_or(1 << self.0, Relaxed);
    }
}
macro_rules! k {
    ($($n:ident $i:ident $o:ident),*) => { $( fn $n(k: usize) -> An<Hp<$i, $o>> { An(Hp(k, PhantomData)) } )* };
}
k!(h01 U0 U1, h11 U1 U1, h12 U1 U2, h21 U2 U1, h22 U2 U2);

/// Hashes of the first `n` probes.
fn taken(n: usize) -> Vec<u64> {
    (0..n).map(|i| REC[i].load(Relaxed)).collect()
}

/// `n` probes in the container returned by `make`. With `located`, the location decides the hash from construction on.
fn body(make: impl Fn() -> Box<dyn AudioUnit>, n: usize) {
    CNT.store(0, Relaxed);
    let mut a = make();
    let (ni, no) = (a.inputs(), a.outputs());
    a.tick(&vec![0.0; ni], &mut vec![0.0; no]);
    check(CNT.load(Relaxed) == (1 << n) - 1, "some generator was not seeded from its location");
    let h = taken(n);
    for i in 0..n {
        for j in 0..i {
            check(h[i] != h[j], "two locations got the same hash");
        }
    }
    let mut b = make();
    b.tick(&vec![0.0; ni], &mut vec![0.0; no]);
    let g = taken(n);
    for i in 0..n {
        check(h[i] == g[i], "identical graphs got different hashes");
    }
    // custom hashes
    let x = u64_in(0, u64::MAX);
    let y = u64_in(0, u64::MAX);
    let p = a.ping(true, AttoHash::new(x)).state();
    let t = taken(n);
    for i in 0..n {
        check(t[i] == g[i], "a probe changed the hash of a generator");
    }
    let q = a.ping(false, AttoHash::new(x)).state();
    check(p == q, "probing gives another hash than setting it");
    let hx = taken(n);
    CNT.store(0, Relaxed);
    a.ping(false, AttoHash::new(y));
    check(CNT.load(Relaxed) == (1 << n) - 1, "a custom hash did not reach some generator");
    let hy = taken(n);
    b.ping(false, AttoHash::new(x));
    let hb = taken(n);
    for i in 0..n {
        check(x == y || hx[i] != hy[i], "the hash of a generator does not depend on the custom hash");
        check(hx[i] == hb[i], "the hash of a generator depends on history");
    }
}

/// A generator whose seed or phase is set: the same alone, elsewhere in a graph, after a reset and after a ping.
fn fixed_at<X: AudioNode + 'static, const N: usize>(make: impl Fn() -> An<X>, b: &mut dyn AudioUnit, ins: &[R]) {
    let x = signal(ins, N);
    let mut a = make();
    let ya = by_tick(&mut a, &x, N);
    let yb = by_tick(b, &x, N);
    let mut c = make();
    c.ping(false, AttoHash::new(u64_in(0, u64::MAX)));
    let yc = by_tick(&mut c, &x, N);
    a.reset();
    let yd = by_tick(&mut a, &x, N);
    let mut net = Net::wrap(Box::new(noise()));
    net.set_sample_rate(DEFAULT_SR);
    let mut net = net | Net::wrap(Box::new(make()));
    let ye = by_tick(&mut net, &x, N);
    for i in 0..N {
        eq32(ya[0][i], yb[1][i], "a fixed generator depends on its location");
        eq32(ya[0][i], yc[0][i], "a fixed generator depends on its hash");
        eq32(ya[0][i], yd[0][i], "a fixed generator depends on its history");
        eq32(ya[0][i], ye[1][i], "a fixed generator depends on its location in a network");
    }
}
macro_rules! fixed {
    ($e:expr, $ins:expr) => {
        fixed!($e, $ins, 9)
    };
    ($e:expr, $ins:expr, $n:literal) => {
        fixed_at::<_, $n>(|| $e, &mut (h01(0) | $e | h01(1)), $ins)
    };
}
/// The setting takes effect at the next reset.
fn later<X: AudioNode + 'static, const N: usize>(plain: impl Fn() -> An<X>, set: impl Fn(f32) -> Setting, make: impl Fn(f32) -> An<X>, ins: &[R]) {
    let p = f32_in(0.0, 1.0);
    let x = signal(ins, N);
    let mut a = plain();
    let mut b = plain();
    let mut c = make(p);
    by_tick(&mut a, &x, 1);
    by_tick(&mut b, &x, 1);
    a.set(set(p));
    same(&by_tick(&mut a, &x, N), &by_tick(&mut b, &x, N), "the phase setting took effect before a reset");
    a.reset();
    same(&by_tick(&mut a, &x, N), &by_tick(&mut c, &x, N), "the phase setting had no effect after a reset");
}

fn s() -> u64 {
    u64_in(0, u64::MAX)
}
fn ph() -> f32 {
    f32_in(0.0, 1.0)
}

/// Two generators in different locations are different signals, and the graph is the same every time.
fn pair(make: impl Fn() -> Box<dyn AudioUnit>, ins: &[f32]) {
    const N: usize = 40;
    let mut a = make();
    let mut b = make();
    let n = a.outputs();
    let (mut f, mut g) = (vec![0.0; n], vec![0.0; n]);
    let mut differ = vec![false; n * n];
    for _ in 0..N {
        a.tick(ins, &mut f);
        b.tick(ins, &mut g);
        for i in 0..n {
            eq32(f[i], g[i], "identical graphs gave different signals");
            for j in 0..i {
                if f[i] != f[j] {
                    differ[i * n + j] = true;
                }
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            check(differ[i * n + j], "generators in different locations are identical");
        }
    }
}

/// The sequence of `n` bits has period `2^n - 1`, visits no zero state and repeats for every seed.
fn mls_period(n: u32) {
    let a = MlsState::new_with_seed(n, u64_in(0, (1 << n) - 2) as u32);
    let len = a.length();
    check(len == (1 << n) - 1, "wrong sequence length");
    let mut b = a;
    // a window of n values identifies the state
    let mut first = 0u32;
    let mut window = 0u32;
    for i in 0..len + n {
        window = ((window << 1) | b.value()) & len;
        check(b.value() <= 1, "sequence value is not a bit");
        b = b.next();
        if i == n - 1 {
            first = window;
        } else if i >= n {
            check(window != 0, "the sequence has n zeros in a row");
            check((window == first) == (i == len + n - 1), "the sequence repeats after a wrong number of steps");
        }
    }
}
/// The step to the next state loses no information.
fn mls_next() {
    let n = 1 + choose(31) as u32;
    let a = MlsState::new_with_seed(n, u64_in(0, (1 << n) - 2) as u32);
    let b = MlsState::new_with_seed(n, u64_in(0, (1 << n) - 2) as u32);
    let read = |m: MlsState| {
        let (mut m, mut v) = (m, 0u32);
        for _ in 0..n {
            v = (v << 1) | m.value();
            m = m.next();
        }
        v
    };
    let (sa, sb) = (read(a), read(b));
    let (ta, tb) = (read(a.next()), read(b.next()));
    check((sa == sb) == (ta == tb), "two states have the same successor");
    check(sa != 0 && ta != 0, "the sequence can get stuck");
    check(sa >> 1 << 1 == sa & !1 && (ta >> 1) == (sa & (a.length() >> 1)), "the sequence is not a shift register sequence");
}

harnesses! { "c15";
    pipe: body(|| Box::new(h01(0) >> h11(1) >> h11(2)), 3);
    stack: body(|| Box::new(h01(0) | h11(1) | h21(2)), 3);
    branch: body(|| Box::new(h11(0) ^ h12(1) ^ h11(2)), 3);
    bus: body(|| Box::new(h11(0) & h11(1) & h11(2)), 3);
    sum: body(|| Box::new(h11(0) + h11(1) - h01(2)), 3);
    product: body(|| Box::new(h11(0) * h11(1) * 2.0), 2);
    thru: body(|| Box::new(!h22(0) >> h22(1)), 2);
    unop: body(|| Box::new(-(h11(0) * 0.5) + 1.0), 1);
    fb: body(|| Box::new(feedback(h22(0) >> h22(1)) >> h21(2)), 3);
    fb2: body(|| Box::new(feedback2(h11(0), h11(1))), 2);
    resampler: body(|| Box::new(resample(h01(0)) >> h11(1)), 2);
    over: body(|| Box::new(oversample(h11(0) >> h11(1))), 2);
    upd: body(|| Box::new(update(h11(0) >> h11(1), 0.1, |_, _, _| ())), 2);
    setter: body(|| { let (_s, l) = listen(h11(0) >> h11(1)); Box::new(l) }, 2);
    boxed: body(|| Box::new(unit::<U1, U1>(Box::new(h11(0) >> h11(1))) >> unit::<U1, U1>(Box::new(h11(2)))), 3);
    nest: body(|| Box::new(allnest_c(0.5, h11(0) >> h11(1)) >> h11(2)), 3);
    bigblock: body(|| Box::new(BlockRateAdapter::new(Box::new(h01(0) | h01(1)))), 2);
    bigblock2: body(|| Box::new(BigBlockAdapter::new(Box::new(h12(0) >> h21(1)))), 2);
    multistack: body(|| Box::new(stacki::<U4, _, _>(|i| h11(i as usize))), 4);
    multibus: body(|| Box::new(busi::<U4, _, _>(|i| h11(i as usize))), 4);
    multibranch: body(|| Box::new(branchi::<U4, _, _>(|i| h11(i as usize))), 4);
    multisum: body(|| Box::new(sumi::<U4, _, _>(|i| h11(i as usize))), 4);
    multipipe: body(|| Box::new(pipei::<U4, _, _>(|i| h11(i as usize))), 4);
    multiseries: body(|| Box::new(stacki::<U2, _, _>(|i| h11(2 * i as usize) >> h11(2 * i as usize + 1))), 4);
    nested: body(|| Box::new((h01(0) | (h11(1) & h11(2))) >> (h21(3) ^ h21(4)) | h11(5) | h11(6)), 7);
    network: body(|| {
        let mut net = Net::new(1, 1);
        let a = net.push(Box::new(h11(0)));
        let b = net.push(Box::new(h11(1) >> h11(2)));
        let c = net.push(Box::new(h21(3)));
        net.pipe_input(a);
        net.pipe_all(a, b);
        net.connect(a, 0, c, 0);
        net.connect(b, 0, c, 1);
        net.pipe_output(c);
        Box::new(net)
    }, 4);
    network_ops: body(|| Box::new((Net::wrap(Box::new(h11(0))) | Net::wrap(Box::new(h11(1)))) >> (Net::wrap(Box::new(h21(2))) ^ Net::wrap(Box::new(h21(3))))), 4);
    network_nested: body(|| {
        let inner = || Net::wrap(Box::new(h11(0))) >> Net::wrap(Box::new(h11(1)));
        let mut net = Net::wrap(Box::new(inner()));
        net = net >> Net::wrap(Box::new(h11(2)));
        Box::new(net)
    }, 3);
    network_backend: body(|| {
        let mut net = Net::wrap(Box::new(h11(0))) >> Net::wrap(Box::new(h11(1)));
        Box::new(net.backend())
    }, 2);
    slot_in_net: {
        let make = || {
            let (_f, b) = Slot::new(Box::new(h01(0) | h11(1)));
            let (_g, c) = Slot::new(Box::new(h11(2)));
            Net::wrap(Box::new(b)) | Net::wrap(Box::new(c))
        };
        body(|| Box::new(make()), 3)
    };

    seed_noise: { let k = s(); fixed!(noise().seed(k), &[]) };
    seed_white: { let k = s(); fixed!(white().seed(k), &[]) };
    seed_pink: { let k = s(); fixed!(pink().seed(k), &[]) };
    seed_brown: { let k = s(); fixed!(brown().seed(k), &[]) };
    seed_mls: { let k = s(); fixed!(mls().seed(k), &[]) };
    seed_mls_bits: { let k = s(); fixed!(mls_bits(13).seed(k), &[]) };
    seed_same: {
        // white and noise are the same generator, pink and brown filter it
        let k = s();
        let (mut a, mut b, mut c, mut d) = (noise().seed(k), white().seed(k), pink().seed(k), brown().seed(k));
        let (mut p, mut q) = (white().seed(k) >> pinkpass(), white().seed(k) >> lowpole_hz(10.0) * dc(13.7));
        for _ in 0..6 {
            let x = a.get_mono();
            eq32(x, b.get_mono(), "noise and white differ");
            eq32(c.get_mono(), p.get_mono(), "pink noise is not filtered white noise");
            eq32(d.get_mono(), q.get_mono(), "brown noise is not filtered white noise");
        }
    };
    phase_sine: { let p = ph(); fixed!(sine().phase(p), &[F]) };
    phase_sine_hz: { let p = ph(); fixed!(sine_hz(440.0).phase(p), &[]) };
    phase_ramp: { let p = ph(); fixed!(ramp().phase(p), &[F]) };
    phase_ramp_hz: { let p = ph(); fixed!(ramp_hz(440.0).phase(p), &[]) };
    phase_dsf_saw: { let p = ph(); fixed!(dsf_saw_r(0.5).phase(p), &[F]) };
    phase_dsf_square: { let p = ph(); fixed!(dsf_square().phase(p), &[F, U]) };
    phase_poly_saw: { let p = ph(); fixed!(poly_saw().phase(p), &[F], 2) };
    phase_poly_square: { let p = ph(); fixed!(poly_square().phase(p), &[ctl(440.0, 440.0)], 2) };
    phase_poly_pulse: { let p = ph(); fixed!(poly_pulse().phase(p), &[ctl(440.0, 440.0), ctl(0.4, 0.4)], 2) };
    phase_saw: { let p = ph(); fixed!(saw_hz(440.0).phase(p), &[]) };
    phase_square: { let p = ph(); fixed!(square_hz(440.0).phase(p), &[]) };
    phase_triangle: { let p = ph(); fixed!(triangle_hz(440.0).phase(p), &[]) };
    phase_organ: { let p = ph(); fixed!(organ_hz(440.0).phase(p), &[]) };
    phase_soft_saw: { let p = ph(); fixed!(soft_saw_hz(440.0).phase(p), &[]) };
    phase_hammond: { let p = ph(); fixed!(hammond_hz(440.0).phase(p), &[]) };
    phase_later_sine: later::<_, 8>(|| sine(), Setting::phase, |p| sine().phase(p), &[F]);
    phase_later_ramp: later::<_, 8>(|| ramp(), Setting::phase, |p| ramp().phase(p), &[F]);
    phase_later_poly: later::<_, 2>(|| poly_saw(), Setting::phase, |p| poly_saw().phase(p), &[ctl(440.0, 440.0)]);
    phase_later_dsf: later::<_, 8>(|| dsf_saw_r(0.5), Setting::phase, |p| dsf_saw_r(0.5).phase(p), &[F]);
    phase_later_saw: later::<_, 8>(|| saw(), Setting::phase, |p| saw().phase(p), &[ctl(400.0, 400.0)]);
    phase_later_triangle: later::<_, 8>(|| triangle(), Setting::phase, |p| triangle().phase(p), &[ctl(400.0, 400.0)]);

    pair_noise: pair(|| Box::new(noise() | white() | noise()), &[]);
    pair_pink: pair(|| Box::new(pink() | pink() | brown() | brown()), &[]);
    pair_mls: pair(|| Box::new(mls() | mls() | mls_bits(12) | mls_bits(12)), &[]);
    pair_sine: pair(|| Box::new(sine_hz(440.0) | sine_hz(440.0) | (sine_hz(440.0) & zero()) | sine_hz(440.0)), &[]);
    pair_ramp: pair(|| Box::new(ramp_hz(440.0) | ramp_hz(440.0) | ramp_hz(440.0)), &[]);
    pair_poly: pair(|| Box::new(poly_saw_hz(440.0) | poly_saw_hz(440.0) | poly_square_hz(440.0) | poly_square_hz(440.0) | poly_pulse_hz(440.0, 0.4) | poly_pulse_hz(440.0, 0.4)), &[]);
    pair_dsf: pair(|| Box::new(dsf_saw_r(0.5) | dsf_saw_r(0.5) | dsf_square_r(0.5) | dsf_square_r(0.5)), &[440.0; 4]);
    pair_wave: pair(|| Box::new(saw_hz(440.0) | saw_hz(440.0) | triangle_hz(440.0) | triangle_hz(440.0) | organ_hz(440.0) | organ_hz(440.0)), &[]);
    pair_pulse: pair(|| Box::new(pulse() | pulse()), &[440.0, 0.3, 440.0, 0.3]);
    pair_hold: pair(|| Box::new((noise() | dc(3000.0)) >> hold(0.5) | (noise() | dc(3000.0)) >> hold(0.5)), &[]);
    pair_stacki: pair(|| Box::new(stacki::<U5, _, _>(|_| noise())), &[]);
    pair_stackf: pair(|| Box::new(stackf::<U5, _, _>(|_| sine_hz(330.0))), &[]);
    pair_branchi: pair(|| Box::new(zero() >> branchi::<U5, _, _>(|_| pass() + noise())), &[]);
    pair_net: pair(|| {
        let n = || Net::wrap(Box::new(noise()));
        Box::new(n() | n() | n())
    }, &[]);
    pair_over: pair(|| Box::new(oversample(noise()) | oversample(noise())), &[]);
    pair_resample: pair(|| Box::new(dc((1.0, 1.0)) >> (resample(noise()) | resample(noise()))), &[]);

    mls1: mls_period(1);
    mls2: mls_period(2);
    mls3: mls_period(3);
    mls4: mls_period(4);
    mls5: mls_period(5);
    mls6: mls_period(6);
    mls7: mls_period(7);
    mls8: mls_period(8);
    mls_step: mls_next();
}
