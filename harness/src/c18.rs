//! C18: buffers and block adapters. All views of a buffer agree; adapters and convenience functions are
//! transparent.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;

const SPOTS: [usize; 8] = [0, 1, 7, 8, 9, 31, 56, 63];

fn lanes() -> ([f32; 8], F32x) {
    let mut a = [0.0; 8];
    for x in a.iter_mut() {
        *x = f32_in(-8.0, 8.0);
    }
    (a, F32x::new(a))
}

/// Expected contents after one write of each kind.
fn write(m: &mut Vec<Vec<f32>>, b: &mut BufferMut, k: usize, n: usize) {
    let c = choose(n);
    let i = SPOTS[choose(8)];
    let x = f32_in(-8.0, 8.0);
    let (a, v) = lanes();
    let j = i >> 3;
    match k {
        0 => {
            b.set_f32(c, i, x);
            m[c][i] = x;
        }
        1 => {
            b.set(c, j, v);
            m[c][j * 8..j * 8 + 8].copy_from_slice(&a);
        }
        2 => {
            b.channel_mut(c)[j] = v;
            m[c][j * 8..j * 8 + 8].copy_from_slice(&a);
        }
        3 => {
            check(b.channel_f32_mut(c).len() == MAX_BUFFER_SIZE, "length of channel");
            b.channel_f32_mut(c)[i] = x;
            m[c][i] = x;
        }
        4 => {
            *b.at_mut(c, j) = v;
            m[c][j * 8..j * 8 + 8].copy_from_slice(&a);
        }
        5 => {
            b.add(c, j, v);
            for l in 0..8 {
                m[c][j * 8 + l] += a[l];
            }
        }
        _ => {
            let len = choose(n - c) + 1;
            let d = choose(len);
            let mut s = b.subset(c, len);
            check(s.channels() == len, "number of channels of subset");
            s.set_f32(d, i, x);
            m[c + d][i] = x;
        }
    }
}

fn read_mut(m: &[Vec<f32>], b: &mut BufferMut) {
    check(b.channels() == m.len(), "number of channels");
    for c in 0..m.len() {
        check(b.channel(c).len() == SIMD_LEN && b.channel_f32(c).len() == MAX_BUFFER_SIZE, "length of channel");
        for i in 0..MAX_BUFFER_SIZE {
            eq32(b.at_f32(c, i), m[c][i], "sample of mutable buffer");
            eq32(b.at(c, i >> 3).as_array_ref()[i & 7], m[c][i], "vector of mutable buffer");
            eq32(b.channel(c)[i >> 3].as_array_ref()[i & 7], m[c][i], "channel of mutable buffer");
            eq32(b.channel_f32(c)[i], m[c][i], "scalar channel of mutable buffer");
        }
    }
    read(m, &b.buffer_ref());
}
fn read(m: &[Vec<f32>], b: &BufferRef) {
    check(b.channels() == m.len(), "number of channels");
    for c in 0..m.len() {
        check(b.channel(c).len() == SIMD_LEN && b.channel_f32(c).len() == MAX_BUFFER_SIZE, "length of channel");
        for i in 0..MAX_BUFFER_SIZE {
            eq32(b.at_f32(c, i), m[c][i], "sample of buffer");
            eq32(b.at(c, i >> 3).as_array_ref()[i & 7], m[c][i], "vector of buffer");
            eq32(b.channel(c)[i >> 3].as_array_ref()[i & 7], m[c][i], "channel of buffer");
            eq32(b.channel_f32(c)[i], m[c][i], "scalar channel of buffer");
        }
    }
    for c in 0..m.len() {
        for len in 0..m.len() - c + 1 {
            let s = b.subset(c, len);
            check(s.channels() == len, "number of channels of subset");
            for d in 0..len {
                for i in SPOTS {
                    eq32(s.at_f32(d, i), m[c + d][i], "sample of subset");
                }
            }
        }
    }
}
fn zeros(n: usize) -> Vec<Vec<f32>> {
    (0..n).map(|_| [0.0f32; MAX_BUFFER_SIZE].to_vec()).collect()
}

macro_rules! owned {
    ($b:ident, $m:ident, $n:expr) => {
        // direct writes
        let (c, i, x) = (choose($n), SPOTS[choose(8)], f32_in(-8.0, 8.0));
        $b.set_f32(c, i, x);
        $m[c][i] = x;
        let (a, v) = lanes();
        let (c, j) = (choose($n), choose(2) * 7);
        match choose(3) {
            0 => $b.set(c, j, v),
            1 => $b.channel_mut(c)[j] = v,
            _ => $b.channel_f32_mut(c)[j * 8..j * 8 + 8].copy_from_slice(&a),
        }
        $m[c][j * 8..j * 8 + 8].copy_from_slice(&a);
        check($b.channels() == $n && $b.length() == SIMD_LEN && $b.len() == SIMD_LEN, "shape of buffer");
        for c in 0..$n {
            for i in 0..MAX_BUFFER_SIZE {
                eq32($b.at_f32(c, i), $m[c][i], "sample of owned buffer");
                eq32($b.at(c, i >> 3).as_array_ref()[i & 7], $m[c][i], "vector of owned buffer");
                eq32($b.channel(c)[i >> 3].as_array_ref()[i & 7], $m[c][i], "channel of owned buffer");
                eq32($b.channel_f32(c)[i], $m[c][i], "scalar channel of owned buffer");
            }
        }
        read(&$m, &$b.buffer_ref());
    };
}

/// Symbolic generator with two channels.
#[derive(Clone)]
struct Src {
    x: Vec<f32>,
    i: usize,
}
impl AudioNode for Src {
    const ID: u64 = 9012;
    type Inputs = U0;
    type Outputs = U2;
    fn reset(&mut self) {
        self.i = 0;
    }
    fn tick(&mut self, _: &Frame<f32, U0>) -> Frame<f32, U2> {
        let x = self.x[self.i];
        self.i += 1;
        [x, x * 0.5].into()
    }
}
fn src(n: usize) -> An<Src> {
    let mut x = Vec::with_capacity(n);
    for _ in 0..n {
        x.push(f32_in(-1.0, 1.0));
    }
    An(Src { x, i: 0 })
}

fn big(sizes: &[usize]) {
    let g = f32_in(0.25, 1.0);
    let total: usize = sizes.iter().sum();
    let x = signal(&[A, A], total);
    let y = by_tick(&mut p22(g), &x, total);
    let mut u = BigBlockAdapter::new(Box::new(p22(g)));
    u.allocate();
    let mut p = 0;
    for &n in sizes {
        let mut o0 = Vec::with_capacity(n);
        let mut o1 = Vec::with_capacity(n);
        o0.resize(n, 0.0);
        o1.resize(n, 0.0);
        u.process_big(n, &[&x[0][p..p + n], &x[1][p..p + n]], &mut [&mut o0, &mut o1]);
        for i in 0..n {
            close(o0[i], y[0][p + i], 1e-6, "big block");
            close(o1[i], y[1][p + i], 1e-6, "big block");
        }
        p += n;
    }
}

harnesses! { "c18";
    buffer_vec: {
        let n = 3;
        let mut b = BufferVec::new(n);
        let mut m = zeros(n);
        owned!(b, m, n);
    };
    buffer_array: {
        let n = 3;
        let mut b = BufferArray::<U3>::new();
        let mut m = zeros(n);
        owned!(b, m, n);
    };
    buffer_mut_vec: {
        let n = choose(3) + 1;
        let mut b = BufferVec::new(n);
        let mut m = zeros(n);
        let k = choose(7);
        write(&mut m, &mut b.buffer_mut(), k, n);
        read_mut(&m, &mut b.buffer_mut());
        let mut c = b.clone();
        c.clear();
        read(&zeros(n), &c.buffer_ref());
        c = b.clone();
        c.resize(4);
        let mut k = m.clone();
        k.resize(4, [0.0f32; MAX_BUFFER_SIZE].to_vec());
        read(&k, &c.buffer_ref());
        c.resize(1);
        read(&m[..1], &c.buffer_ref());
    };
    buffer_mut_array: {
        let n = 2;
        let mut b = BufferArray::<U2>::new();
        let mut m = zeros(n);
        let k = choose(7);
        write(&mut m, &mut b.buffer_mut(), k, n);
        read_mut(&m, &mut b.buffer_mut());
        b.clear();
        read(&zeros(n), &b.buffer_ref());
    };
    empties: {
        check(BufferRef::empty().channels() == 0 && BufferMut::empty().channels() == 0, "empty buffer has channels");
        check(BufferVec::new(0).channels() == 0, "empty buffer has channels");
        check(simd_items(0) == 0 && simd_items(1) == 1 && simd_items(8) == 1 && simd_items(9) == 2 && simd_items(64) == 8, "number of vectors");
        check(full_simd_items(0) == 0 && full_simd_items(7) == 0 && full_simd_items(8) == 1 && full_simd_items(63) == 7 && full_simd_items(64) == 8, "number of full vectors");
    };
    big_small: { big(&[0, 1, 5, 8]) };
    big_exact: { big(&[64, 3]) };
    big_large: { big(&[65, 130, 7]) };
    big_huge: { big(&[200]) };
    big_forward: {
        // the adapter as a unit
        let g = f32_in(0.25, 1.0);
        let x = signal(&[A, A], 20);
        let mut a = p22(g);
        a.set_sample_rate(48000.0);
        let y = by_tick(&mut a, &x, 20);
        let mut u = BigBlockAdapter::new(Box::new(p22(g)));
        check(u.inputs() == 2 && u.outputs() == 2 && u.get_id() == p22(g).get_id(), "shape of adapted unit");
        u.set_sample_rate(48000.0);
        near(&by_tick(&mut u, &x, 20), &y, 1e-6, "adapted unit");
        u.reset();
        near(&by_block(&mut u, &x, 0, &[3, 17]), &y, 1e-6, "adapted unit in blocks after reset");
    };
    block_rate: {
        let s = src(192);
        let y = by_tick(&mut s.clone(), &[], 160);
        let mut u = BlockRateAdapter::new(Box::new(s.clone()));
        check(u.inputs() == 0 && u.outputs() == 2, "shape of adapted unit");
        let mut p = 0;
        let plan: &[usize] = [&[0, 5, 0, 64, 0, 13][..], &[64, 0, 1, 0, 0, 64], &[60, 0, 0, 0, 0, 0, 20], &[7, 57, 9], &[33, 64, 0, 31]][choose(5)];
        for &n in plan {
            if n == 0 {
                let mut o = [9.0, 9.0];
                u.tick(&[], &mut o);
                eq32(o[0], y[0][p], "sample of adapted unit");
                eq32(o[1], y[1][p], "sample of adapted unit");
                p += 1;
            } else {
                let o = by_block(&mut u, &[], 0, &[n]);
                for i in 0..n {
                    eq32(o[0][i], y[0][p + i], "block of adapted unit");
                    eq32(o[1][i], y[1][p + i], "block of adapted unit");
                }
                p += n;
            }
        }
        u.reset();
        let o = by_block(&mut u, &[], 0, &[5, 60]);
        for i in 0..65 {
            eq32(o[0][i], y[0][i], "block of adapted unit after reset");
        }
    };
    block_rate_calls: {
        // the adapted unit only sees maximum length blocks
        let mut u = BlockRateAdapter::new(Box::new(src(64)));
        let mut o = [0.0, 0.0];
        for _ in 0..64 {
            u.tick(&[], &mut o);
        }
    };
    units_mono: {
        let s = src(3);
        let (x0, x1, x2) = (s.0.x[0], s.0.x[1], s.0.x[2]);
        // two channels: average and the pair
        let mut a: Box<dyn AudioUnit> = Box::new(s.clone());
        close(a.get_mono(), (x0 + x0 * 0.5) * 0.5, 1e-6, "mono sample of stereo unit");
        let (l, r) = a.get_stereo();
        eq32(l, x1, "left sample of unit");
        eq32(r, x1 * 0.5, "right sample of unit");
        let mut b = s.clone();
        close(b.get_mono(), (x0 + x0 * 0.5) * 0.5, 1e-6, "mono sample of stereo node");
        let (l, r) = b.get_stereo();
        eq32(l, x1, "left sample of node");
        eq32(r, x1 * 0.5, "right sample of node");
        // one channel
        let m = s.clone() >> (pass() | sink());
        let mut a: Box<dyn AudioUnit> = Box::new(m.clone());
        eq32(a.get_mono(), x0, "mono sample of mono unit");
        let (l, r) = a.get_stereo();
        eq32(l, x1, "left sample of mono unit");
        eq32(r, x1, "right sample of mono unit");
        eq32(a.get_mono(), x2, "mono sample of mono unit");
        let mut b = m.clone();
        eq32(b.get_mono(), x0, "mono sample of mono node");
        let (l, r) = b.get_stereo();
        eq32(l, x1, "left sample of mono node");
        eq32(r, x1, "right sample of mono node");
    };
    units_filter: {
        let g = f32_in(0.25, 1.0);
        let x = signal(&[A, A], 4);
        let y = by_tick(&mut p11(g), &x[..1], 4);
        let mut a: Box<dyn AudioUnit> = Box::new(p11(g));
        let mut b = p11(g);
        for i in 0..4 {
            eq32(a.filter_mono(x[0][i]), y[0][i], "filtered sample of unit");
            eq32(b.filter_mono(x[0][i]), y[0][i], "filtered sample of node");
        }
        let y = by_tick(&mut p22(g), &x, 4);
        let mut a: Box<dyn AudioUnit> = Box::new(p22(g));
        let mut b = p22(g);
        for i in 0..4 {
            let (l, r) = a.filter_stereo(x[0][i], x[1][i]);
            eq32(l, y[0][i], "filtered sample of unit");
            eq32(r, y[1][i], "filtered sample of unit");
            let (l, r) = b.filter_stereo(x[0][i], x[1][i]);
            eq32(l, y[0][i], "filtered sample of node");
            eq32(r, y[1][i], "filtered sample of node");
        }
    };
}
