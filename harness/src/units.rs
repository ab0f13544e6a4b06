//! Catalogue of audio units used by the generic properties.
use crate::prim::*;
use crate::util::*;
pub use fundsp::hacker::*;
pub use crate::probe::*;
pub use std::sync::Arc;

pub struct Spec {
    pub name: &'static str,
    pub unit: Box<dyn AudioUnit>,
    /// Rebuilds the unit from scratch.
    pub make: fn() -> Box<dyn AudioUnit>,
    pub ins: &'static [R],
    pub tol: f32,
}

pub fn table() -> Arc<Wavetable> {
    Arc::new(Wavetable::new(3000.0, 14000.0, 1.0, &|_| 0.0, &|_, i| 1.0 / i as f64))
}
pub fn wave() -> Arc<Wave> {
    let mut w = Wave::new(1, 44100.0);
    for i in 0..11 {
        w.push((i * i) as f32 * 0.01 - 0.3);
    }
    Arc::new(w)
}
pub fn net1() -> Net {
    let mut net = Net::new(1, 2);
    let a = net.push(Box::new(lowpole_hz(1000.0)));
    let b = net.push(Box::new(pass() * 0.5));
    let c = net.push(Box::new(delay(0.0003)));
    net.connect_input(0, a, 0);
    net.connect_input(0, b, 0);
    net.connect(a, 0, c, 0);
    net.connect_output(c, 0, 0);
    net.connect_output(b, 0, 1);
    net
}
pub fn net_feedback() -> Net {
    // two nodes, no cycle, shared source, global constant
    let n = Net::wrap(Box::new(pass())) >> Net::wrap(Box::new(lowpole_hz(500.0))) & Net::wrap(Box::new(delay(0.0002) * 0.5));
    n * 0.5
}
pub fn seq1() -> Sequencer {
    let mut s = Sequencer::new(false, 1);
    s.push(0.0, 0.001, Fade::Smooth, 0.0004, 0.0002, Box::new(dc(0.5)));
    s.push_relative(0.0005, 1.0, Fade::Power, 0.0, 0.0, Box::new(noise()));
    s
}

pub fn seq2() -> Sequencer {
    let mut s = Sequencer::new(true, 1);
    s.push(0.0, 0.001, Fade::Smooth, 0.0004, 0.0002, Box::new(noise()));
    s.push(0.0003, 0.0012, Fade::Power, 0.0003, 0.0002, Box::new(dc(0.5) >> lowpole_hz(100.0)));
    s.push(0.0, 0.0002, Fade::Power, 0.0, 0.0, Box::new(dc(0.25)));
    s
}

pub fn net_probe() -> Net {
    let mut net = Net::new(2, 2);
    let a = net.push(Box::new(p11(0.5)));
    let b = net.push(Box::new(p22(0.75)));
    let c = net.push(Box::new(p11(-0.5)));
    net.connect_input(0, a, 0);
    net.connect_input(1, b, 1);
    net.connect(a, 0, b, 0);
    net.connect(b, 1, c, 0);
    net.connect_output(c, 0, 0);
    net.connect_output(b, 0, 1);
    net
}
pub fn seq_probe() -> Sequencer {
    let mut s = Sequencer::new(true, 1);
    s.push(0.0, 1.0, Fade::Smooth, 0.0, 0.0, Box::new(p01(0.5)));
    s.push(0.0002, 1.0, Fade::Power, 0.0003, 0.0, Box::new(p01(0.25)));
    s
}

/// name : constructor, input ranges, tolerance;
#[macro_export]
macro_rules! units {
    ($prefix:literal) => { unit_harnesses! { $prefix;
        constant: constant((0.5, -0.25)), &[], 1e-6;
        dc: dc(0.7), &[], 1e-6;
        zero: zero(), &[], 1e-6;
        multizero: multizero::<U3>(), &[], 1e-6;
        pass: pass(), &[A], 1e-6;
        multipass: multipass::<U3>(), &[A, A, A], 1e-6;
        meter_sample: meter(Meter::Sample), &[A], 1e-6;
        meter_peak: meter(Meter::Peak(0.1)), &[A], 1e-6;
        meter_rms: meter(Meter::Rms(0.1)), &[A], 1e-5;
        sink: sink() | pass(), &[A, A], 1e-6;
        multisink: multisink::<U2>() | pass(), &[A, A, A], 1e-6;
        reverse: reverse::<U3>(), &[A, A, A], 1e-6;
        sine: sine(), &[F], 2e-5;
        sine_hz: sine_hz(440.0), &[], 2e-5;
        ramp: ramp(), &[F], 1e-5;
        ramp_hz: ramp_hz(1234.0), &[], 1e-5;
        rossler: rossler(), &[ctl(20.0, 1000.0)], 1e-5;
        lorenz: lorenz(), &[ctl(20.0, 1000.0)], 1e-5;
        add: add((0.5, -1.0)), &[A, A], 1e-6;
        sub: sub((0.5, -1.0)), &[A, A], 1e-6;
        mul: mul((0.5, -2.0)), &[A, A], 1e-6;
        butterpass: butterpass(), &[A, F], 1e-5;
        butterpass_hz: butterpass_hz(1000.0), &[A], 1e-5;
        lowpole: lowpole(), &[A, F], 1e-5;
        lowpole_hz: lowpole_hz(1000.0), &[A], 1e-5;
        allpole: allpole(), &[A, ctl(0.2, 2.0)], 1e-5;
        allpole_delay: allpole_delay(0.6), &[A], 1e-5;
        highpole: highpole(), &[A, F], 1e-5;
        highpole_hz: highpole_hz(1000.0), &[A], 1e-5;
        resonator: resonator(), &[A, F, Q], 1e-5;
        resonator_hz: resonator_hz(1000.0, 10.0), &[A], 1e-5;
        biquad: biquad(-0.5, 0.25, 0.3, 0.2, 0.1), &[A], 1e-5;
        moog: moog(), &[A, F, U], 1e-4;
        moog_q: moog_q(0.3), &[A, F], 1e-4;
        moog_hz: moog_hz(1000.0, 0.5), &[A], 1e-4;
        envelope: envelope(|t| t * 100.0), &[], 1e-5;
        lfo: lfo(|t| (t * 50.0, 1.0 - t * 20.0)), &[], 1e-5;
        envelope2: envelope2(|t, x| t * 10.0 + x), &[A], 1e-5;
        lfo3: lfo3(|t, x, y| t * 10.0 + x * y), &[A, A], 1e-5;
        envelope_in: envelope_in::<_, U2, _>(|t, i: &Frame<f32, U2>| t * 10.0 + (i[0] - i[1]) as f64), &[A, A], 1e-5;
        adsr_live: adsr_live(0.001, 0.002, 0.5, 0.001), &[ctl(-1.0, 1.0)], 1e-4;
        mls: mls_bits(9), &[], 1e-6;
        noise: noise(), &[], 1e-6;
        white: white(), &[], 1e-6;
        hold: hold(0.5), &[A, ctl(9000.0, 9100.0)], 1e-6;
        hold_hz: hold_hz(5000.0, 0.3), &[A], 1e-6;
        fir: fir((0.5, -0.25, 0.125, 1.0)), &[A], 1e-5;
        fir3: fir3(0.5), &[A], 1e-5;
        tick: tick(), &[A], 1e-6;
        multitick: multitick::<U2>(), &[A, A], 1e-6;
        delay: delay(0.0005), &[A], 1e-6;
        delay_short: delay(0.00003), &[A], 1e-6;
        delay_long: delay(0.0015), &[A], 1e-6;
        tap: tap(0.0001, 0.0006), &[A, ctl(0.0, 0.001)], 1e-5;
        multitap: multitap::<U2>(0.0001, 0.0006), &[A, ctl(0.0, 0.001), ctl(0.0, 0.001)], 1e-5;
        tap_linear: tap_linear(0.0001, 0.0006), &[A, ctl(0.0, 0.001)], 1e-5;
        multitap_linear: multitap_linear::<U2>(0.0001, 0.0006), &[A, ctl(0.0, 0.001), ctl(0.0, 0.001)], 1e-5;
        oversample: oversample(pass() * 0.5), &[A], 1e-5;
        oversample_nl: oversample(shape(Softsign(1.0))), &[A], 1e-4;
        resample: resample(noise()), &[ctl(0.7, 0.71)], 1e-4;
        feedback: feedback(delay(0.0003) * 0.5), &[A], 1e-5;
        feedback_st: feedback((pass() | delay(0.0002)) * 0.5 >> reverse::<U2>()), &[A, A], 1e-5;
        feedback2: feedback2(delay(0.0003), lowpole_hz(1000.0) * 0.5), &[A], 1e-5;
        allnest_c: allnest_c(0.5, delay(0.0003)), &[A], 1e-5;
        allnest: allnest(tick()), &[A, B], 1e-5;
        map: map(|i: &Frame<f32, U2>| (i[0] + i[1], i[0] - i[1])), &[A, A], 1e-6;
        dcblock: dcblock(), &[A], 1e-5;
        dcblock_hz: dcblock_hz(100.0), &[A], 1e-5;
        declick: declick(), &[A], 1e-5;
        declick_s: declick_s(0.001), &[A], 1e-5;
        shape_fn: shape_fn(|x| x * x), &[A], 1e-6;
        shape_clip: shape(Clip(2.0)), &[A], 1e-6;
        shape_clipto: shape(ClipTo(-0.25, 0.5)), &[A], 1e-6;
        shape_softsign: shape(Softsign(2.0)), &[A], 1e-6;
        shape_tanh: shape(Tanh(2.0)), &[A], 1e-5;
        shape_atan: shape(Atan(2.0)), &[A], 1e-5;
        shape_crush: shape(Crush(4.0)), &[A], 1e-6;
        shape_softcrush: shape(SoftCrush(4.0)), &[A], 1e-5;
        shape_adaptive: shape(Adaptive::new(0.01, Clip(1.0))), &[A], 1e-4;
        clip: clip(), &[aud(-3.0, 3.0)], 1e-6;
        clip_to: clip_to(-0.25, 2.0), &[aud(-3.0, 3.0)], 1e-6;
        panner: panner(), &[A, B], 1e-5;
        pan: pan(0.3), &[A], 1e-5;
        follow: follow(0.01), &[A], 1e-5;
        afollow: afollow(0.01, 0.02), &[A], 1e-5;
        limiter: limiter(0.0002, 0.001), &[A], 1e-4;
        limiter_stereo: limiter_stereo(0.0001, 0.001), &[A, A], 1e-4;
        pinkpass: pinkpass(), &[A], 1e-5;
        pink: pink(), &[], 1e-5;
        brown: brown(), &[], 1e-5;
        fdn: fdn::<U2, _>(stacki::<U2, _, _>(|i| delay(0.0002 + 0.0001 * i as f32) * 0.5)), &[A, A], 1e-5;
        fdn2: fdn2::<U2, _, _>(stacki::<U2, _, _>(|i| delay(0.0002 + 0.0001 * i as f32) * 0.5), stacki::<U2, _, _>(|_| lowpole_hz(2000.0))), &[A, A], 1e-5;
        bus: bus(lowpole_hz(500.0), delay(0.0002)), &[A], 1e-5;
        busi: busi::<U3, _, _>(|i| delay(0.0002 * i as f32) * (0.5 + i as f32)), &[A], 1e-5;
        busf: busf::<U3, _, _>(|x| mul(x + 0.5)), &[A], 1e-5;
        stack: stack(lowpole_hz(500.0), delay(0.0002)), &[A, A], 1e-5;
        stacki: stacki::<U3, _, _>(|i| mul(0.5 + i as f32)), &[A, A, A], 1e-6;
        stackf: stackf::<U3, _, _>(|x| mul(0.5 + x)), &[A, A, A], 1e-6;
        branch: branch(lowpole_hz(500.0), delay(0.0002)), &[A], 1e-5;
        branchi: branchi::<U3, _, _>(|i| mul(0.5 + i as f32)), &[A], 1e-6;
        branchf: branchf::<U3, _, _>(|x| mul(0.5 + x)), &[A], 1e-6;
        thru: !(mul(0.5) | sink()) , &[A, A], 1e-6;
        thru_wide: !split::<U3>(), &[A], 1e-6;
        thru_narrow: !join::<U3>(), &[A, A, A], 1e-5;
        product: product(lowpole_hz(500.0), delay(0.0002)), &[A, A], 1e-5;
        sum: sum(lowpole_hz(500.0), delay(0.0002)), &[A, A], 1e-5;
        sumi: sumi::<U3, _, _>(|i| mul(0.5 + i as f32)), &[A, A, A], 1e-5;
        sumf: sumf::<U3, _, _>(|x| dc(0.5 + x)), &[], 1e-5;
        pipe: pipe(lowpole_hz(500.0), delay(0.0002)), &[A], 1e-5;
        pipei: pipei::<U3, _, _>(|i| add(0.5 + i as f32)), &[A], 1e-5;
        pipef: pipef::<U3, _, _>(|x| mul(0.5 + x)), &[A], 1e-5;
        neg: -(pass() | lowpole_hz(300.0)), &[A, A], 1e-5;
        op_addc: (pass() | tick()) + 0.5, &[A, A], 1e-6;
        op_subc: 0.5 - pass(), &[A], 1e-6;
        op_mulc: 3.0 * pass(), &[A], 1e-6;
        op_sub: pass() - tick(), &[A, A], 1e-6;
        op_mul: pass() * tick(), &[A, A], 1e-6;
        split: split::<U3>(), &[A], 1e-6;
        multisplit: multisplit::<U2, U3>(), &[A, A], 1e-6;
        join: join::<U3>(), &[A, A, A], 1e-5;
        multijoin: multijoin::<U2, U3>(), &[A, A, A, A, A, A], 1e-5;
        dsf_saw: dsf_saw(), &[ctl(20.0, 8000.0), ctl(0.1, 0.9)], 1e-4;
        dsf_saw_r: dsf_saw_r(0.5), &[F], 1e-4;
        dsf_square_r: dsf_square_r(0.5), &[F], 1e-4;
        pluck: pluck(2000.0, 0.9, 0.5), &[A], 1e-5;
        wavesynth: An(WaveSynth::<U1>::new(table())), &[ctl(2500.0, 2900.0)], 2e-4;
        wavesynth2: An(WaveSynth::<U2>::new(table())), &[ctl(2500.0, 2900.0)], 2e-4;
        phasesynth: An(PhaseSynth::new(table())), &[ctl(0.0, 1.0)], 2e-4;
        lowpass: lowpass(), &[A, F, Q], 1e-5;
        lowpass_hz: lowpass_hz(1000.0, 1.0), &[A], 1e-5;
        lowpass_q: lowpass_q(2.0), &[A, F], 1e-5;
        highpass: highpass(), &[A, F, Q], 1e-5;
        highpass_hz: highpass_hz(1000.0, 1.0), &[A], 1e-5;
        bandpass: bandpass(), &[A, F, Q], 1e-5;
        bandpass_hz: bandpass_hz(1000.0, 1.0), &[A], 1e-5;
        notch: notch(), &[A, F, Q], 1e-5;
        notch_hz: notch_hz(1000.0, 1.0), &[A], 1e-5;
        peak: peak(), &[A, F, Q], 1e-5;
        peak_hz: peak_hz(1000.0, 1.0), &[A], 1e-5;
        allpass: allpass(), &[A, F, Q], 1e-5;
        allpass_hz: allpass_hz(1000.0, 1.0), &[A], 1e-5;
        bell: bell(), &[A, F, Q, G], 1e-5;
        bell_hz: bell_hz(1000.0, 1.0, 2.0), &[A], 1e-5;
        lowshelf: lowshelf(), &[A, F, Q, G], 1e-5;
        lowshelf_hz: lowshelf_hz(1000.0, 1.0, 2.0), &[A], 1e-5;
        highshelf: highshelf(), &[A, F, Q, G], 1e-5;
        highshelf_hz: highshelf_hz(1000.0, 1.0, 2.0), &[A], 1e-5;
        highshelf_q: highshelf_q(1.0, 2.0), &[A, F], 1e-5;
        lowrez: lowrez(), &[A, F, U], 1e-4;
        lowrez_hz: lowrez_hz(1000.0, 0.5), &[A], 1e-4;
        bandrez: bandrez(), &[A, F, U], 1e-4;
        bandrez_hz: bandrez_hz(1000.0, 0.5), &[A], 1e-4;
        morph: morph(), &[A, F, Q, B], 1e-5;
        morph_hz: morph_hz(1000.0, 1.0, 0.5), &[A], 1e-5;
        wavech: wavech(&wave(), 0, None), &[], 1e-6;
        wavech_loop: wavech(&wave(), 0, Some(3)), &[], 1e-6;
        wavech_at: wavech_at(&wave(), 0, 2, 9, Some(4)), &[], 1e-6;
        chorus: chorus(1, 0.0002, 0.0002, 1.0), &[A], 1e-4;
        flanger: flanger(0.5, 0.0001, 0.0004, |t| lerp11(0.0001, 0.0004, t)), &[A], 1e-4;
        phaser: phaser(0.5, |_t| 0.3), &[A], 1e-4;
        var: var(&shared(0.5)), &[], 1e-6;
        var_fn: var_fn(&shared(0.5), |x| (x, x + 1.0)), &[], 1e-6;
        timer: timer(&shared(0.0)) | pass(), &[A], 1e-6;
        monitor: monitor(&shared(0.0), Meter::Sample), &[A], 1e-6;
        snoop: snoop(64).1, &[A], 1e-6;
        resynth: resynth::<U1, U1, _>(16, |fft: &mut FftWindow| for i in 0..fft.bins() { fft.set(0, i, fft.at(0, i)); }), &[A], 1e-4;
        impulse: impulse::<U2>(), &[], 1e-6;
        rotate: rotate(0.5, 2.0), &[A, A], 1e-5;
        dbell: dbell(Softsign(1.0)), &[A, F, Q, G], 1e-4;
        dbell_hz: dbell_hz(Softsign(1.0), 1000.0, 1.0, 2.0), &[A], 1e-4;
        fbell: fbell(Softsign(1.0)), &[A, F, Q, G], 1e-4;
        fbell_hz: fbell_hz(Clip(1.0), 1000.0, 1.0, 2.0), &[A], 1e-4;
        dhighpass_hz: dhighpass_hz(Softsign(1.0), 1000.0, 1.0), &[A], 1e-4;
        fhighpass: fhighpass(Softsign(1.0)), &[A, F, Q], 1e-4;
        fhighpass_hz: fhighpass_hz(Softsign(1.0), 1000.0, 1.0), &[A], 1e-4;
        dlowpass: dlowpass(Softsign(1.0)), &[A, F, Q], 1e-4;
        dlowpass_hz: dlowpass_hz(Softsign(1.0), 1000.0, 1.0), &[A], 1e-4;
        flowpass_hz: flowpass_hz(Softsign(1.0), 1000.0, 1.0), &[A], 1e-4;
        dresonator_hz: dresonator_hz(Softsign(1.0), 1000.0, 1.0), &[A], 1e-4;
        fresonator: fresonator(Softsign(1.0)), &[A, F, Q], 1e-4;
        fresonator_hz: fresonator_hz(Softsign(1.0), 1000.0, 1.0), &[A], 1e-4;
        poly_saw: poly_saw(), &[ctl(1000.0, 1020.0)], 1e-4;
        poly_square: poly_square(), &[ctl(1000.0, 1020.0)], 1e-4;
        poly_pulse: poly_pulse(), &[ctl(1000.0, 1020.0), ctl(0.3, 0.31)], 1e-4;
        poly_pulse_hz: poly_pulse_hz(1100.0, 0.3), &[], 1e-4;
        biquad_bank: biquad_bank(), &[A, A, A, A], 1e-5;
        unit: unit::<U1, U1>(Box::new(lowpole_hz(500.0) >> delay(0.0002))), &[A], 1e-5;
        net_basic: net1(), &[A], 1e-5;
        net_ops: net_feedback(), &[A], 1e-5;
        sequencer: seq1(), &[], 1e-5;
        sequencer_replay: seq2(), &[], 1e-5;
        blockrate: BlockRateAdapter::new(Box::new(noise() * 0.5)), &[], 1e-5;
        slot: Slot::new(Box::new(lowpole_hz(700.0))).1, &[A], 1e-5;
        update: update(lowpole_hz(500.0), 0.0005, |t, _dt, x: &mut Lowpole<f64, U1>| x.set(Setting::center(500.0 + 1.0e5 * t))), &[A], 1e-4;
        listen: { let (_s, n) = listen(lowpole_hz(500.0)); n }, &[A], 1e-5;
        p_pipe: p11(0.5) >> p12(0.75), &[A], 1e-5;
        p_stack: p11(0.5) | p12(0.75), &[A, A], 1e-5;
        p_branch: p11(0.5) ^ p12(0.75), &[A], 1e-5;
        p_bus: p12(0.5) & p12(0.75), &[A], 1e-5;
        p_sum: p12(0.5) + p22(0.75), &[A, A, A], 1e-5;
        p_diff: p12(0.5) - p22(0.75), &[A, A, A], 1e-5;
        p_product: p01(0.5) * p11(0.75), &[A], 1e-5;
        p_neg: -p12(0.5), &[A], 1e-5;
        p_addc: p12(0.5) + 0.25, &[A], 1e-5;
        p_mulc: p12(0.5) * 0.25, &[A], 1e-5;
        p_thru: !p21(0.5), &[A, A], 1e-5;
        p_thru_wide: !p12(0.5), &[A], 1e-5;
        p_busi: busi::<U3, _, _>(|i| p12(0.25 + 0.25 * i as f32)), &[A], 1e-5;
        p_stacki: stacki::<U3, _, _>(|i| p11(0.25 + 0.25 * i as f32)), &[A, A, A], 1e-5;
        p_branchi: branchi::<U3, _, _>(|i| p11(0.25 + 0.25 * i as f32)), &[A], 1e-5;
        p_sumi: sumi::<U3, _, _>(|i| p11(0.25 + 0.25 * i as f32)), &[A, A, A], 1e-5;
        p_pipei: pipei::<U3, _, _>(|i| p11(0.25 + 0.25 * i as f32)), &[A], 1e-5;
        p_feedback: feedback(p11(0.25)), &[A], 1e-5;
        p_feedback2: feedback2(p11(0.25), p11(0.5)), &[A], 1e-5;
        p_feedback_unit: FeedbackUnit::new(0.0002, Box::new(p11(0.25))), &[A], 1e-5;
        p_feedback_unit_long: FeedbackUnit::new(0.00075, Box::new(p22(0.25))), &[A, A], 1e-5;
        p_feedback_unit_one: FeedbackUnit::new(0.0, Box::new(p11(0.25))), &[A], 1e-5;
        p_fdn: fdn::<U2, _>(stacki::<U2, _, _>(|i| p11(0.25 + 0.25 * i as f32))), &[A, A], 1e-5;
        p_fdn2: fdn2::<U2, _, _>(stacki::<U2, _, _>(|i| p11(0.25 + 0.25 * i as f32)), p22(0.25)), &[A, A], 1e-5;
        p_allnest: allnest(p11(0.5)), &[A, B], 1e-5;
        p_allnest_c: allnest_c(0.5, p11(0.5)), &[A], 1e-5;
        p_unit: unit::<U1, U2>(Box::new(p12(0.5))), &[A], 1e-5;
        p_oversample: oversample(p11(0.5)), &[A], 1e-5;
        p_resample: resample(p02(0.5)), &[ctl(1.0, 1.0)], 1e-5;
        p_listen: { let (_s, n) = listen(p11(0.5)); n }, &[A], 1e-5;
        p_update: update(p11(0.5), 0.0005, |t, _dt, x: &mut Probe<U1, U1>| x.set(Setting::value(0.5 + 100.0 * t))), &[A], 1e-5;
        p_net: net_probe(), &[A, A], 1e-5;
        p_sequencer: seq_probe(), &[], 1e-5;
        p_slot: Slot::new(Box::new(p11(0.5))).1, &[A], 1e-5;
        p_blockrate: BlockRateAdapter::new(Box::new(p02(0.5))), &[], 1e-5;
        p_bigblock: BigBlockAdapter::new(Box::new(p12(0.5))), &[A], 1e-5;
        p_dummy: Net::wrap(Box::new(DummyUnit::new(1, 2))), &[A], 1e-5;
        dummy: DummyUnit::new(1, 2), &[A], 1e-5;
        p_resynth: p11(0.5) >> resynth::<U1, U1, _>(16, |fft: &mut FftWindow| for i in 0..fft.bins() { fft.set(0, i, fft.at(0, i)); }), &[A], 1e-4;
        dhighpass: dhighpass(Softsign(1.0)), &[A, F, Q], 1e-4;
        dresonator: dresonator(Softsign(1.0)), &[A, F, Q], 1e-4;
        flowpass: flowpass(Softsign(1.0)), &[A, F, Q], 1e-4;
        lowshelf_q: lowshelf_q(1.0, 2.0), &[A, F], 1e-5;
        bell_q: bell_q(1.0, 2.0), &[A, F], 1e-5;
        envelope3: envelope3(|t, x, y| t * 10.0 + x * y), &[A, A], 1e-5;
        envelope_fast: An(Envelope::new(0.0004, |t: f64| t * 100.0)), &[], 1e-5;
        envelope_in_fast: An(EnvelopeIn::<f64, _, U2, _>::new(0.0004, |t: f64, i: &Frame<f32, U2>| t * 10.0 + (i[0] - i[1]) as f64)), &[A, A], 1e-5;
        lowpass_sub: { let mut f = lowpass(); f.set(Setting::subsample(3)); f }, &[A, F, Q], 1e-5;
        bell_sub: { let mut f = bell(); f.set(Setting::subsample(7)); f }, &[A, F, Q, G], 1e-5;
        lowpole_sub: { let mut f = dbell(Softsign(1.0)); f.set(Setting::subsample(3)); f }, &[A, F, Q, G], 1e-4;
        resample_c: dc(0.7) >> resample(p02(0.5)), &[], 1e-4;
        resample_up: (constant(2.3) >> resample(noise())) | (constant(1.0) >> resample(p01(0.5))), &[], 1e-4;
        reverb: reverb_stereo(20.0, 1.0, 0.5), &[A, A], 1e-4;
        reverb2: reverb2_stereo(20.0, 1.0, 0.5, 0.5, p11(0.25)), &[A, A], 1e-4;
        reverb3: reverb3_stereo(1.0, 0.5, p11(0.25)), &[A, A], 1e-4;
        reverb4: reverb4_stereo(20.0, 1.0), &[A, A], 1e-4;
        lfo_in: lfo_in::<_, U1, _>(|t, i: &Frame<f32, U1>| (t * 10.0 + i[0] as f64, i[0] as f64)), &[A], 1e-5;
    } };
}
