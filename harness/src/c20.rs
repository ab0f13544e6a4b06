//! C20: WAV files. The bytes written are a well formed RIFF file from which the samples can be recovered,
//! and success is reported only when every byte was accepted.
use crate::prim::*;
use fundsp::hacker::*;
use std::io::{Error, ErrorKind, Result, Write};

/// The two functions of the standard library's `BufWriter` that are not generic, so that they have no
/// intermediate representation here (transcribed from library/alloc/src/io/buffered/bufwriter.rs).
#[cfg(vp_ir)]
mod bufguard {
    #[repr(C)]
    pub struct BufGuard<'a> {
        buffer: &'a mut Vec<u8>,
        written: usize,
    }
    #[export_name = "_RNvMNvMs_NtNtNtCsgFX3jaOk65H_5alloc2io8buffered9bufwriterINtB7_9BufWriterpE9flush_bufNtB2_8BufGuard9remaining"]
    pub fn remaining<'a>(g: &'a BufGuard) -> &'a [u8] {
        &g.buffer[g.written..]
    }
    #[export_name = "_RNvXs_NvMs_NtNtNtCsgFX3jaOk65H_5alloc2io8buffered9bufwriterINtB9_9BufWriterpE9flush_bufNtB4_8BufGuardNtNtNtCskADBYZwJmSU_4core3ops4drop4Drop4drop"]
    pub fn drop(g: &mut BufGuard) {
        if g.written > 0 {
            g.buffer.drain(..g.written);
        }
    }
}

/// Accepts at most `limit` bytes, `step` at a time.
struct Out {
    data: Vec<u8>,
    limit: usize,
    step: usize,
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = min(min(b.len(), self.limit - self.data.len()), self.step);
        if n == 0 && b.len() > 0 {
            return Err(Error::from(ErrorKind::StorageFull));
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
fn le16(b: &[u8], i: usize) -> u16 {
    b[i] as u16 | (b[i + 1] as u16) << 8
}
fn le32(b: &[u8], i: usize) -> u32 {
    le16(b, i) as u32 | (le16(b, i + 2) as u32) << 16
}

fn wave(channels: usize, n: usize, rate: f64, a: f32) -> Wave {
    let mut w = Wave::new(0, rate);
    for _ in 0..channels {
        let mut s = Vec::with_capacity(n);
        for _ in 0..n {
            s.push(f32_in(-a, a));
        }
        w.push_channel(&s);
    }
    w
}

fn header(b: &[u8], channels: usize, n: usize, rate: u32, format: u16, bytes: usize) {
    let size = channels * n * bytes;
    check(b.len() == 44 + size, "size of file");
    check(&b[0..4] == b"RIFF" && &b[8..12] == b"WAVE" && &b[12..16] == b"fmt " && &b[36..40] == b"data", "chunk tags");
    check(le32(b, 4) as usize == b.len() - 8, "size of RIFF chunk");
    check(le32(b, 16) == 16, "size of format chunk");
    check(le16(b, 20) == format, "sample format");
    check(le16(b, 22) as usize == channels, "number of channels");
    check(le32(b, 24) == rate, "sample rate");
    check(le32(b, 28) == rate * (channels * bytes) as u32, "data rate");
    check(le16(b, 32) as usize == channels * bytes, "frame size");
    check(le16(b, 34) as usize == bytes * 8, "bits per sample");
    check(le32(b, 40) as usize == size, "size of data chunk");
}

fn shape() -> (usize, usize, f64) {
    ([1, 2, 3][choose(3)], [0, 1, 3][choose(3)], [44100.0, 48000.0, 11025.4][choose(3)])
}

fn wav16(w: Wave, c: usize, n: usize, rate: f64) {
    let mut o = Out { data: Vec::new(), limit: 1000, step: [1000, 7][choose(2)] };
    check(w.write_wav16(&mut o).is_ok(), "writing failed");
    header(&o.data, c, n, (rate + 0.5) as u32, 1, 2);
    for i in 0..n {
        for k in 0..c {
            let v = le16(&o.data, 44 + 2 * (i * c + k)) as i16 as f32;
            let x = w.at(k, i);
            let y = if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x };
            // within one step of the clipped sample
            close(v, y * 32767.0, 1.01, "16 bit sample");
            check(v >= -32768.0 && v <= 32767.0, "16 bit sample out of range");
            check(!(x > 0.001) || v > 0.0, "sign of 16 bit sample");
            check(!(x < -0.001) || v < 0.0, "sign of 16 bit sample");
        }
    }
}

fn fault(kind: usize, n: usize) {
    let w = wave(2, n, 44100.0, 1.0);
    let total = 44 + 2 * n * if kind == 0 { 2 } else { 4 };
    let limit = [0, 1, 43, 44, 45, total - 1, total, total + 10][choose(8)];
    let mut o = Out { data: Vec::new(), limit, step: [5000, 13][choose(2)] };
    let r = if kind == 0 { w.write_wav16(&mut o) } else { w.write_wav32(&mut o) };
    let all = o.data.len() == total;
    check(all == (limit >= total), "bytes were lost or added");
    check(!r.is_ok() || all, "success was reported but the file is incomplete");
    check(r.is_ok() || !all, "failure was reported but the file is complete");
}

harnesses! { "c20";
    wav16: {
        let (c, n, rate) = shape();
        wav16(wave(c, n, rate, 1.0), c, n, rate)
    };
    wav16_clip: {
        let c = choose(2) + 1;
        wav16(wave(c, 1, 44100.0, 4.0), c, 1, 44100.0)
    };
    wav16_ends: {
        let mut w = Wave::new(1, 44100.0);
        for x in [0.0, 1.0, -1.0, 1.5, -1.5, f32::INFINITY, f32::NEG_INFINITY, 0.5] {
            w.push(x);
        }
        let mut o = Vec::new();
        check(w.write_wav16(&mut o).is_ok(), "writing failed");
        let v = |i: usize| le16(&o, 44 + 2 * i) as i16;
        check(v(0) == 0, "silence");
        check(v(1) == 32767 && v(2) <= -32767, "full scale");
        check(v(3) == v(1) && v(4) == v(2) && v(5) == v(1) && v(6) == v(2), "clipping");
        check(v(7) == 16384 || v(7) == 16383, "half scale");
    };
    wav32: {
        let (c, n, rate) = shape();
        let w = wave(c, n, rate, 100.0);
        let mut o = Out { data: Vec::new(), limit: 1000, step: [1000, 7][choose(2)] };
        check(w.write_wav32(&mut o).is_ok(), "writing failed");
        header(&o.data, c, n, (rate + 0.5) as u32, 3, 4);
        for i in 0..n {
            for k in 0..c {
                eq32(f32::from_bits(le32(&o.data, 44 + 4 * (i * c + k))), w.at(k, i), "32 bit sample");
            }
        }
    };
    fault16: { fault(0, 3) };
    fault32: { fault(1, 3) };
}
