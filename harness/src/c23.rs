//! C23: values shared between the audio thread and other threads.
use crate::prim::*;
use crate::util::*;
use fundsp::hacker::*;
use std::sync::Arc;

fn v() -> f32 {
    f32_in(-4.0, 4.0)
}

fn snoop_run(plan: &[usize], capacity: usize, lazy: bool) {
    let total: usize = plan.iter().map(|&n| if n == 0 { 1 } else { n }).sum();
    let x = signal(&[A], total);
    let (mut f, b) = snoop(capacity);
    let mut b = b;
    let cap = capacity.next_power_of_two();
    check(f.capacity() == cap, "capacity of snoop");
    let (mut p, mut got) = (0, 0);
    for &n in plan {
        if n == 0 {
            let mut o = [0.0];
            b.tick(&[x[0][p]].into()).iter().for_each(|y| o[0] = *y);
            eq32(o[0], x[0][p], "snoop changed the signal");
            p += 1;
        } else {
            let o = by_block(&mut b, &x, p, &[n]);
            for i in 0..n {
                eq32(o[0][i], x[0][p + i], "snoop changed the signal");
            }
            p += n;
        }
        if !lazy {
            while let Some(d) = f.get() {
                check(d.size() == 64 && d.len() == 64 && got + 64 <= p, "unexpected buffer");
                for i in 0..64 {
                    eq32(d.at(i), x[0][got + i], "snooped buffer");
                }
                got += 64;
            }
            check(got == p / 64 * 64, "snooped samples are missing");
        }
    }
    f.update();
    let got = p / 64 * 64;
    check(f.total() == got as u64, "number of snooped samples");
    for i in 0..(if got < cap { got } else { cap }) {
        eq32(f.at(i), x[0][got - 1 - i], "latest snooped sample");
    }
}

fn steps(u: &mut dyn AudioUnit, n: usize) {
    // n = 0 is a tick, otherwise a block
    if n == 0 {
        u.tick(&[], &mut []);
    } else {
        by_block(u, &[], 0, &[n]);
    }
}

fn table(kind: Interpolation, read: impl Fn(&[f32], f64) -> f64) {
    let mut t = Vec::with_capacity(4);
    for _ in 0..4 {
        t.push(v());
    }
    let a = Arc::new(AtomicTable::new(&t));
    check(a.len() == 4, "length of table");
    // later changes are heard
    let k = choose(4);
    let z = v();
    a.set(k, z);
    t[k] = z;
    for i in 0..4 {
        eq32(a.at(i), t[i], "table entry");
    }
    let mut s = AtomicSynth::<f32>::new(a.clone());
    s.set_interpolation(kind);
    let rate = [44100.0, 8192.0][choose(2)];
    s.set_sample_rate(rate);
    let f = [0.125, 0.3125, 0.78125][choose(3)];
    for i in 0..5 {
        let y = s.tick(&[(f * rate) as f32].into())[0];
        let p = f * (i + 1) as f64;
        let p = p - (p as usize) as f64;
        close64(y as f64, read(&t, p), 1e-4, 0.0, "interpolated table");
    }
}

harnesses! { "c23";
    shared_var: {
        let (x, y, z) = (v(), v(), v());
        let s = shared(x);
        eq32(s.value(), x, "shared value");
        let mut a = var(&s);
        let mut b = a.clone();
        let s2 = s.clone();
        eq32(a.get_mono(), x, "variable");
        match choose(4) {
            0 => s.set(y),
            1 => s.set_value(y),
            2 => s2.set_value(y),
            _ => b.0.set_value(y),
        }
        eq32(s.value(), y, "shared value after change");
        eq32(s2.value(), y, "shared value after change");
        eq32(a.0.value(), y, "variable after change");
        eq32(a.get_mono(), y, "variable after change");
        eq32(b.get_mono(), y, "clone of variable after change");
        let o = by_block(&mut a, &[], 0, &[9]);
        for i in 0..9 {
            eq32(o[0][i], y, "variable in block");
        }
        s.set(z);
        a.reset();
        a.set_sample_rate(8000.0);
        let o = by_block(&mut a, &[], 0, &[1, 8]);
        for i in 0..9 {
            eq32(o[0][i], z, "variable in block after change");
        }
        // inside graphs and networks
        let mut n = Net::wrap(Box::new(var(&s) * 2.0));
        let mut k = n.backend();
        s.set(x);
        eq32(n.get_mono(), x * 2.0, "variable in network");
        eq32(k.get_mono(), x * 2.0, "variable in backend");
    };
    shared_fn: {
        let (x, y) = (v(), v());
        let s = shared(x);
        let mut a = var_fn(&s, |x| (x * 2.0, x + 1.0));
        let (l, r) = a.get_stereo();
        eq32(l, x * 2.0, "function of variable");
        eq32(r, x + 1.0, "function of variable");
        s.set(y);
        let o = by_block(&mut a, &[], 0, &[11]);
        for i in 0..11 {
            eq32(o[0][i], y * 2.0, "function of variable in block");
            eq32(o[1][i], y + 1.0, "function of variable in block");
        }
    };
    timer_runs: {
        let s = shared(7.0);
        let mut t = timer(&s);
        eq32(s.value(), 0.0, "timer does not start from zero");
        let rate = [44100.0, 48000.0, 8000.0][choose(3)];
        t.set_sample_rate(rate);
        let mut n = 0;
        for k in [[0, 0, 1, 64], [64, 3, 0, 17]][choose(2)] {
            steps(&mut t, k);
            n += if k == 0 { 1 } else { k };
            close64(s.value() as f64, n as f64 / rate, 1e-7, 1e-6, "time");
        }
        t.reset();
        eq32(s.value(), 0.0, "timer was not reset");
        steps(&mut t, 5);
        close64(s.value() as f64, 5.0 / rate, 1e-7, 1e-6, "time after reset");
    };
    timer_stack: {
        // the timer of a graph follows it
        let s = shared(0.0);
        let x = f32_in(-1.0, 1.0);
        let mut u = timer(&s) | dc(x);
        for i in 0..10 {
            eq32(u.get_mono(), x, "timer changes the signal");
            close64(s.value() as f64, (i + 1) as f64 / 44100.0, 1e-7, 1e-6, "time");
        }
        by_block(&mut u, &[], 0, &[20]);
        close64(s.value() as f64, 30.0 / 44100.0, 1e-7, 1e-6, "time");
    };
    snoop_ticks: { snoop_run(&[60, 0, 0, 0, 0, 0, 0, 64], 64, false) };
    snoop_blocks: { snoop_run(&[64, 64, 5], 32, false) };
    snoop_odd: { snoop_run(&[7, 64, 64, 50, 13], 100, false) };
    snoop_lazy: { snoop_run(&[64, 64, 64, 31, 40], 256, true) };
    snoop_one: { snoop_run(&[64, 1], 1, true) };
    snoop_reset: {
        let x = signal(&[A], 70);
        let (mut f, mut b) = snoop(64);
        by_block(&mut b, &x, 0, &[6]);
        b.reset();
        by_block(&mut b, &x, 6, &[64]);
        f.update();
        check(f.total() == 64, "number of snooped samples after reset");
        for i in 0..64 {
            eq32(f.at(i), x[0][69 - i], "snooped sample after reset");
        }
    };
    ring_order: {
        // every interleaving of up to 8 sends and receives
        let (s, mut r) = Ring::<U2>::new(4);
        let mut q: Vec<(f32, f32)> = Vec::new();
        let mut head = 0;
        for _ in 0..8 {
            if choose(2) == 0 {
                let (x, y) = (v(), v());
                let ok = s.try_send([x, y].into()).is_ok();
                check(ok == (q.len() - head < 4), "ring buffer lost capacity or overflowed");
                if ok {
                    q.push((x, y));
                }
            } else {
                let (l, z) = r.get_stereo();
                let (a, b) = if head < q.len() { q[head] } else { (0.0, 0.0) };
                if head < q.len() {
                    head += 1;
                }
                eq32(l, a, "ring buffer order");
                eq32(z, b, "ring buffer order");
            }
        }
    };
    ring_block: {
        let (s, mut r) = Ring::<U1>::new(32);
        let n = choose(4) * 5;
        let x = signal(&[A], 20);
        for i in 0..n {
            check(s.try_send([x[0][i]].into()).is_ok(), "ring buffer is full");
        }
        let o = by_block(&mut r, &[], 0, &[3, 9]);
        for i in 0..12 {
            eq32(o[0][i], if i < n { x[0][i] } else { 0.0 }, "ring buffer in blocks");
        }
    };
    table_nearest: { table(Interpolation::Nearest, |t, p| t[(p * 4.0) as usize] as f64) };
    table_linear: {
        table(Interpolation::Linear, |t, p| {
            let i = (p * 4.0) as usize;
            let d = p * 4.0 - i as f64;
            t[i] as f64 * (1.0 - d) + t[(i + 1) % 4] as f64 * d
        })
    };
    table_cubic: {
        table(Interpolation::Cubic, |t, p| {
            let i = (p * 4.0) as usize;
            let d = p * 4.0 - i as f64;
            let g = |k: usize| t[(i + k) % 4] as f64;
            spline(g(3), g(0), g(1), g(2), d)
        })
    };
}
