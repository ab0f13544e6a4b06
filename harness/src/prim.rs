//! Primitives of the harnesses. With `--cfg vp_ir` they are external symbols that the
//! symbolic engine implements; otherwise they are implemented natively for replay.
#[cfg(vp_ir)]
mod imp {
    extern "C" {
        pub fn vp_f32(lo: f32, hi: f32) -> f32;
        pub fn vp_f64(lo: f64, hi: f64) -> f64;
        pub fn vp_u64(lo: u64, hi: u64) -> u64;
        pub fn vp_choose(n: u64) -> u64;
        pub fn vp_assume(c: bool);
        pub fn vp_check(c: bool, s: *const u8, n: usize);
        pub fn vp_close(a: f64, b: f64, abs: f64, rel: f64, s: *const u8, n: usize);
        pub fn vp_eq32(a: f32, b: f32, s: *const u8, n: usize);
        pub fn vp_eq64(a: f64, b: f64, s: *const u8, n: usize);
        pub fn vp_noalloc(on: bool);
        pub fn vp_reach(s: *const u8, n: usize);
    }
}

#[cfg(not(vp_ir))]
pub mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::RefCell;
    use std::sync::atomic::{AtomicBool, Ordering};

    pub static NOALLOC: AtomicBool = AtomicBool::new(false);
    pub static ALLOCATED: AtomicBool = AtomicBool::new(false);
    pub struct Count;
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if NOALLOC.load(Ordering::Relaxed) {
                ALLOCATED.store(true, Ordering::Relaxed);
            }
            System.alloc(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if NOALLOC.load(Ordering::Relaxed) {
                ALLOCATED.store(true, Ordering::Relaxed);
            }
            System.realloc(p, l, n)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if NOALLOC.load(Ordering::Relaxed) {
                ALLOCATED.store(true, Ordering::Relaxed);
            }
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Count = Count;

    #[derive(Default)]
    pub struct Io {
        pub input: Vec<(char, u64)>,
        pub pos: usize,
        pub out: String,
        pub fails: usize,
    }
    thread_local! { pub static IO: RefCell<Io> = RefCell::new(Io::default()); }

    fn next(k: char, dflt: u64) -> u64 {
        IO.with(|io| {
            let mut io = io.borrow_mut();
            let p = io.pos;
            io.pos += 1;
            match io.input.get(p) {
                Some((c, v)) => {
                    assert!(*c == k, "replay file does not match the harness");
                    *v
                }
                None => dflt,
            }
        })
    }
    fn trace(x: u64) {
        IO.with(|io| {
            use std::fmt::Write;
            let _ = writeln!(io.borrow_mut().out, "T {:x}", x);
        })
    }
    fn fail(s: &str, d: String) {
        IO.with(|io| {
            use std::fmt::Write;
            let mut io = io.borrow_mut();
            io.fails += 1;
            let _ = writeln!(io.out, "FAIL {} {}", s, d);
        })
    }
    unsafe fn st(s: *const u8, n: usize) -> &'static str {
        std::str::from_utf8(std::slice::from_raw_parts(s, n)).unwrap()
    }
    pub unsafe fn vp_f32(lo: f32, hi: f32) -> f32 {
        f32::from_bits(next('f', lo.to_bits() as u64) as u32).clamp(lo, hi)
    }
    pub unsafe fn vp_f64(lo: f64, hi: f64) -> f64 {
        f64::from_bits(next('d', lo.to_bits())).clamp(lo, hi)
    }
    pub unsafe fn vp_u64(lo: u64, hi: u64) -> u64 {
        next('u', lo).clamp(lo, hi)
    }
    pub unsafe fn vp_choose(n: u64) -> u64 {
        next('c', 0).min(n - 1)
    }
    pub struct AssumeFailed;
    pub unsafe fn vp_assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(AssumeFailed));
        }
    }
    pub unsafe fn vp_check(c: bool, s: *const u8, n: usize) {
        trace(c as u64);
        if !c {
            fail(st(s, n), String::new());
        }
    }
    pub unsafe fn vp_close(a: f64, b: f64, abs: f64, rel: f64, s: *const u8, n: usize) {
        trace(a.to_bits());
        trace(b.to_bits());
        let ok = a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= abs + rel * a.abs().max(b.abs());
        if !ok {
            fail(st(s, n), format!("{:?} vs {:?}", a, b));
        }
    }
    pub unsafe fn vp_eq32(a: f32, b: f32, s: *const u8, n: usize) {
        trace(a.to_bits() as u64);
        trace(b.to_bits() as u64);
        if !(a == b || (a.is_nan() && b.is_nan())) {
            fail(st(s, n), format!("{:?} vs {:?}", a, b));
        }
    }
    pub unsafe fn vp_eq64(a: f64, b: f64, s: *const u8, n: usize) {
        trace(a.to_bits());
        trace(b.to_bits());
        if !(a == b || (a.is_nan() && b.is_nan())) {
            fail(st(s, n), format!("{:?} vs {:?}", a, b));
        }
    }
    pub unsafe fn vp_noalloc(on: bool) {
        NOALLOC.store(on, Ordering::SeqCst);
        if !on && ALLOCATED.swap(false, Ordering::SeqCst) {
            fail("heap operation during real-time processing", String::new());
        }
    }
    pub unsafe fn vp_reach(_: *const u8, _: usize) {}
}

/// Symbolic f32 in [lo, hi].
#[inline(never)]
pub fn f32_in(lo: f32, hi: f32) -> f32 {
    unsafe { imp::vp_f32(lo, hi) }
}
#[inline(never)]
pub fn f64_in(lo: f64, hi: f64) -> f64 {
    unsafe { imp::vp_f64(lo, hi) }
}
/// Symbolic u64 in [lo, hi].
pub fn u64_in(lo: u64, hi: u64) -> u64 {
    unsafe { imp::vp_u64(lo, hi) }
}
/// Nondeterministic choice of 0..n, explored exhaustively.
pub fn choose(n: usize) -> usize {
    unsafe { imp::vp_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { imp::vp_assume(c) }
}
pub fn check(c: bool, s: &'static str) {
    unsafe { imp::vp_check(c, s.as_ptr(), s.len()) }
}
/// |a - b| <= abs + rel * max(|a|, |b|)
pub fn close64(a: f64, b: f64, abs: f64, rel: f64, s: &'static str) {
    unsafe { imp::vp_close(a, b, abs, rel, s.as_ptr(), s.len()) }
}
pub fn close(a: f32, b: f32, tol: f32, s: &'static str) {
    unsafe { imp::vp_close(a as f64, b as f64, tol as f64, tol as f64, s.as_ptr(), s.len()) }
}
pub fn eq32(a: f32, b: f32, s: &'static str) {
    unsafe { imp::vp_eq32(a, b, s.as_ptr(), s.len()) }
}
pub fn eq64(a: f64, b: f64, s: &'static str) {
    unsafe { imp::vp_eq64(a, b, s.as_ptr(), s.len()) }
}
pub fn noalloc(on: bool) {
    unsafe { imp::vp_noalloc(on) }
}
pub fn reach(s: &'static str) {
    unsafe { imp::vp_reach(s.as_ptr(), s.len()) }
}
