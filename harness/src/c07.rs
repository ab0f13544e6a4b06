//! C07: real-time backends follow their frontends.
use crate::netmodel::*;
use crate::prim::*;
use crate::probe::*;
use crate::seqmodel::*;
use crate::util::*;
use fundsp::hacker::*;

/// Two edits of any kind, the first of kind `k`, with commits and processing in every order.
fn two(k: usize) {
    let mut m = backwards();
    m.start();
    if choose(2) == 1 {
        m.run(1, true);
    }
    m.op(k);
    if choose(2) == 1 {
        m.commit();
    }
    if choose(2) == 1 {
        m.run(2, true);
    }
    m.op(choose(19));
    m.run(1, false);
    m.commit();
    m.run(3, true);
}
/// Three edits and commits with the backend lagging behind.
fn lag(k: usize) {
    const K: [usize; 7] = [6, 7, 8, 14, 16, 17, 18];
    let mut m = backwards();
    m.start();
    m.op(k);
    m.commit();
    if choose(2) == 1 {
        m.run(1, true);
    }
    m.op(K[choose(7)]);
    m.commit();
    if choose(2) == 1 {
        m.run(6, true);
    }
    m.op(K[choose(7)]);
    m.commit();
    m.run(4, false);
    m.run(3, true);
}
/// Frontend operations of a sequencer with backend blocks in between.
fn seq(early: bool, rate: bool) {
    let mut q = Sq::new(early);
    q.plain = true;
    if early {
        q.push(0);
    }
    q.start();
    if rate {
        // the sample rate is known only once the backend is in place
        q.rate(48000.0);
    }
    if early || choose(2) == 1 {
        q.run(2, true);
    }
    q.op();
    if early || choose(2) == 1 {
        q.run(3, early || choose(2) == 1);
    }
    q.op();
    q.run(5, true);
    q.run(4, false);
}
/// Slot: the last unit set is the one that plays, others are faded through.
fn slot(rate: bool) {
    let mut u: Vec<An<Probe<U1, U1>>> = vec![q11(0.25)];
    let (mut s, mut b) = Slot::new(Box::new(q11(0.25)));
    let sr = if rate { 48000.0 } else { 44100.0 };
    if rate {
        b.set_sample_rate(sr);
        u[0].set_sample_rate(sr);
    }
    let mut age = 0;
    for k in 0..2 {
        let n = choose(3);
        let x = signal(&[A], n + 12);
        let y = by_block(&mut b, &x, 0, if n == 0 { &[] } else if n == 1 { &[1] } else { &[2] });
        let i = u.len() - 1;
        let w = by_tick(&mut u[i], &x, n);
        near(&y, &w, 1e-5, "slot does not play its unit");
        let g = 0.5 + 0.25 * k as f32;
        let power = choose(2) == 1;
        let t = 4.0;
        s.set(if power { Fade::Power } else { Fade::Smooth }, t / sr, Box::new(q11(g)));
        let mut v = q11(g);
        v.set_sample_rate(sr);
        let z: Vec<Vec<f32>> = vec![x[0][n..].to_vec()];
        let y = if choose(2) == 1 { by_block(&mut b, &z, 0, &[3, 7, 2]) } else { by_tick(&mut b, &z, 12) };
        let p = by_tick(&mut u[i], &z, 4);
        let q = by_tick(&mut v, &z, 12);
        for j in 0..12 {
            let m = if j < 4 {
                let f = j as f32 / 4.0;
                if power { p[0][j] * sine_ease(1.0 - f) + q[0][j] * sine_ease(f) } else { p[0][j] * smooth5(1.0 - f) + q[0][j] * smooth5(f) }
            } else {
                q[0][j]
            };
            close(y[0][j], m, 1e-4, "slot does not fade to its new unit");
        }
        u.push(v);
        age += 1;
    }
    check(age == 2, "");
}
harnesses! { "c07";
    seq_early: seq(true, false); seq_late: seq(false, false); seq_rate: seq(false, true); slot: slot(false); slot_rate: slot(true);
    connect: two(0); connect_input: two(1); connect_output: two(2); pass_through: two(3); disconnect: two(4); disconnect_output: two(5);
    remove: two(6); remove_link: two(7); replace: two(8); set_source: two(9); set_output_source: two(10); pipe_input: two(11);
    pipe_output: two(12); pipe_all: two(13); chain: two(14); push: two(15); crossfade: two(16); fade_in: two(17); set: two(18);
    lag_remove: lag(6); lag_remove_link: lag(7); lag_replace: lag(8); lag_chain: lag(14); lag_crossfade: lag(16); lag_fade_in: lag(17); lag_set: lag(18);
}
