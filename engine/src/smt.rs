//! SMT-LIB encodings of terms and solver driving.
//!
//! Three encodings of the same formula are used:
//!  * `Uf`    floats are an uninterpreted sort, float operations uninterpreted functions;
//!            integers are exact bit-vectors. Unsat is sound.
//!  * `Real`  float values are exact reals, every rounding is an error variable bounded from
//!            the interval of the result; integers are mathematical integers with wrap-around
//!            made explicit. Unsat is sound; sat gives a candidate that is evaluated exactly.
//!  * `Exact` IEEE-754 bit-precise floating point.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Verdict {
    Unsat,
    Sat(HashMap<u32, u128>),
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Uf,
    Real { nonlinear: bool },
    Exact,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub errors: u64,
    pub ms: u64,
    pub by: HashMap<String, u64>,
    pub max_nodes: usize,
}

pub struct Solver {
    pub st: Stats,
    pub dir: String,
    n: u64,
    pub keep: bool,
    pub last_err: String,
}

fn pow2str(k: u32) -> String {
    // decimal of 2^k
    let mut d = vec![1u8];
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

/// Exact rational literal of a finite f64.
pub fn rat(x: f64) -> String {
    if x == 0.0 {
        return "0.0".into();
    }
    let b = x.to_bits();
    let neg = b >> 63 != 0;
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1u64 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    while m & 1 == 0 {
        m >>= 1;
        e += 1;
    }
    let s = if e >= 0 {
        if e == 0 {
            format!("{}.0", m)
        } else {
            format!("(* {}.0 {}.0)", m, pow2str(e as u32))
        }
    } else {
        format!("(/ {}.0 {}.0)", m, pow2str((-e) as u32))
    };
    if neg {
        format!("(- {})", s)
    } else {
        s
    }
}

fn ilit(x: i128) -> String {
    if x < 0 {
        format!("(- {})", -x)
    } else {
        format!("{}", x)
    }
}

fn bvlit(bits: u32, v: u128) -> String {
    format!("(_ bv{} {})", v, bits)
}

pub struct Encoder<'a> {
    t: &'a Terms,
    enc: Enc,
    pub out: String,
    nopq: usize,
    decl: HashMap<String, ()>,
}

fn fsort(s: Sort) -> &'static str {
    match s {
        Sort::F32 => "(_ FloatingPoint 8 24)",
        _ => "(_ FloatingPoint 11 53)",
    }
}
fn fpar(s: Sort) -> &'static str {
    match s {
        Sort::F32 => "8 24",
        _ => "11 53",
    }
}

impl<'a> Encoder<'a> {
    pub fn new(t: &'a Terms, enc: Enc) -> Self {
        Encoder { t, enc, out: String::new(), nopq: 0, decl: HashMap::new() }
    }
    fn once(&mut self, key: &str, line: &str) {
        if self.decl.insert(key.to_string(), ()).is_none() {
            self.out.push_str(line);
            self.out.push('\n');
        }
    }
    fn sort_name(&self, s: Sort) -> String {
        match self.enc {
            Enc::Uf => match s {
                Sort::Bool => "Bool".into(),
                Sort::Bv(n) => format!("(_ BitVec {})", n),
                Sort::F32 => "U32".into(),
                Sort::F64 => "U64".into(),
            },
            Enc::Real { .. } => match s {
                Sort::Bool => "Bool".into(),
                Sort::Bv(_) => "Int".into(),
                _ => "Real".into(),
            },
            Enc::Exact => match s {
                Sort::Bool => "Bool".into(),
                Sort::Bv(n) => format!("(_ BitVec {})", n),
                s => fsort(s).into(),
            },
        }
    }
    fn r(&self, i: Id) -> String {
        let n = self.t.node(i);
        if n.op == Op::Const {
            match n.sort {
                Sort::Bool => return if n.aux != 0 { "true".into() } else { "false".into() },
                Sort::Bv(b) => {
                    return match self.enc {
                        Enc::Real { .. } => format!("{}", n.aux),
                        _ => bvlit(b as u32, n.aux),
                    }
                }
                _ => {
                    if let Enc::Real { .. } = self.enc {
                        let x = getf(n.sort, n.aux);
                        if x.is_finite() {
                            return rat(x);
                        }
                    }
                }
            }
        }
        format!("n{}", i)
    }
    fn def(&mut self, i: Id, e: &str) {
        let s = self.sort_name(self.t.sort(i));
        let _ = writeln!(self.out, "(define-fun n{} () {} {})", i, s, e);
    }
    fn declare(&mut self, i: Id) {
        let s = self.sort_name(self.t.sort(i));
        let _ = writeln!(self.out, "(declare-const n{} {})", i, s);
    }
    fn assert(&mut self, e: &str) {
        let _ = writeln!(self.out, "(assert {})", e);
    }

    pub fn encode(&mut self, roots: &[Id]) {
        for i in self.t.cone(roots) {
            match self.enc {
                Enc::Uf => self.uf(i),
                Enc::Exact => self.exact(i),
                Enc::Real { nonlinear } => self.real(i, nonlinear),
            }
        }
    }

    fn args(&self, i: Id) -> Vec<String> {
        let n = self.t.node(i);
        (0..n.n as usize).map(|k| self.r(n.a[k])).collect()
    }

    fn bvop(&self, i: Id) -> Option<String> {
        let n = self.t.node(i);
        let a = self.args(i);
        let b = n.sort.bits();
        Some(match n.op {
            Op::Not => format!("(not {})", a[0]),
            Op::And => format!("(and {} {})", a[0], a[1]),
            Op::Or => format!("(or {} {})", a[0], a[1]),
            Op::Ite => format!("(ite {} {} {})", a[0], a[1], a[2]),
            Op::Eq => format!("(= {} {})", a[0], a[1]),
            Op::Add => format!("(bvadd {} {})", a[0], a[1]),
            Op::Sub => format!("(bvsub {} {})", a[0], a[1]),
            Op::Mul => format!("(bvmul {} {})", a[0], a[1]),
            Op::UDiv => format!("(bvudiv {} {})", a[0], a[1]),
            Op::SDiv => format!("(bvsdiv {} {})", a[0], a[1]),
            Op::URem => format!("(bvurem {} {})", a[0], a[1]),
            Op::SRem => format!("(bvsrem {} {})", a[0], a[1]),
            Op::BAnd => format!("(bvand {} {})", a[0], a[1]),
            Op::BOr => format!("(bvor {} {})", a[0], a[1]),
            Op::BXor => format!("(bvxor {} {})", a[0], a[1]),
            Op::Shl => format!("(bvshl {} {})", a[0], a[1]),
            Op::LShr => format!("(bvlshr {} {})", a[0], a[1]),
            Op::AShr => format!("(bvashr {} {})", a[0], a[1]),
            Op::Ult => format!("(bvult {} {})", a[0], a[1]),
            Op::Ule => format!("(bvule {} {})", a[0], a[1]),
            Op::Slt => format!("(bvslt {} {})", a[0], a[1]),
            Op::Sle => format!("(bvsle {} {})", a[0], a[1]),
            Op::ZExt => format!("((_ zero_extend {}) {})", b - self.t.sort(n.a[0]).bits(), a[0]),
            Op::SExt => format!("((_ sign_extend {}) {})", b - self.t.sort(n.a[0]).bits(), a[0]),
            Op::Extract => format!("((_ extract {} {}) {})", n.aux as u32 + b - 1, n.aux, a[0]),
            Op::Concat => format!("(concat {} {})", a[0], a[1]),
            _ => return None,
        })
    }

    fn uf(&mut self, i: Id) {
        self.once("$s", "(declare-sort U32 0)\n(declare-sort U64 0)");
        let n = self.t.node(i).clone();
        if n.op == Op::Const {
            if n.sort.is_f() {
                self.declare(i);
            }
            return;
        }
        if n.op == Op::Var {
            self.declare(i);
            if let Sort::Bv(_) = n.sort {
                let v = &self.t.vars[n.aux as usize];
                let e = format!("(and (bvule {} n{i}) (bvule n{i} {}))", bvlit(64, v.ulo as u128), bvlit(64, v.uhi as u128), i = i);
                self.assert(&e);
            }
            return;
        }
        if let Some(e) = self.bvop(i) {
            self.def(i, &e);
            return;
        }
        let a = self.args(i);
        if n.op == Op::FEq && !self.t.fiv(n.a[0]).nan && !self.t.fiv(n.a[1]).nan {
            // equal numbers are the same number (the sign of zero is not observable)
            self.def(i, &format!("(= {} {})", a[0], a[1]));
            return;
        }
        let srt: Vec<String> = (0..n.n as usize).map(|k| self.sort_name(self.t.sort(n.a[k]))).collect();
        let name = format!(
            "f_{:?}_{}_{}",
            n.op,
            n.aux,
            srt.join("_").replace(['(', ')', ' '], "") + "_" + &self.sort_name(n.sort).replace(['(', ')', ' '], "")
        );
        let rs = self.sort_name(n.sort);
        self.once(&name, &format!("(declare-fun {} ({}) {})", name, srt.join(" "), rs));
        self.def(i, &format!("({} {})", name, a.join(" ")));
    }

    fn exact(&mut self, i: Id) {
        let n = self.t.node(i).clone();
        let s = n.sort;
        match n.op {
            Op::Const => {
                if s.is_f() {
                    self.def(i, &format!("((_ to_fp {}) {})", fpar(s), bvlit(s.bits(), n.aux)));
                }
                return;
            }
            Op::Var => {
                let v = &self.t.vars[n.aux as usize];
                if s.is_f() {
                    let _ = writeln!(self.out, "(declare-const b{} (_ BitVec {}))", i, s.bits());
                    let (lo, hi) = (putf(s, v.lo), putf(s, v.hi));
                    self.def(i, &format!("((_ to_fp {}) b{})", fpar(s), i));
                    let e = format!(
                        "(and (fp.leq ((_ to_fp {p}) {}) n{i}) (fp.leq n{i} ((_ to_fp {p}) {})))",
                        bvlit(s.bits(), lo),
                        bvlit(s.bits(), hi),
                        p = fpar(s),
                        i = i
                    );
                    self.assert(&e);
                } else {
                    self.declare(i);
                    let e = format!("(and (bvule {} n{i}) (bvule n{i} {}))", bvlit(64, v.ulo as u128), bvlit(64, v.uhi as u128), i = i);
                    self.assert(&e);
                }
                return;
            }
            _ => {}
        }
        if let Some(e) = self.bvop(i) {
            self.def(i, &e);
            return;
        }
        let a = self.args(i);
        let e = match n.op {
            Op::FAdd => format!("(fp.add RNE {} {})", a[0], a[1]),
            Op::FMul => format!("(fp.mul RNE {} {})", a[0], a[1]),
            Op::FDiv => format!("(fp.div RNE {} {})", a[0], a[1]),
            Op::FNeg => format!("(fp.neg {})", a[0]),
            Op::FAbs => format!("(fp.abs {})", a[0]),
            Op::FSqrt => format!("(fp.sqrt RNE {})", a[0]),
            Op::FRnd => format!("(fp.roundToIntegral {} {})", ["RTN", "RTP", "RTZ", "RNE", "RNA"][n.aux as usize], a[0]),
            Op::Fma => format!("(fp.fma RNE {} {} {})", a[0], a[1], a[2]),
            Op::FCvt => format!("((_ to_fp {}) RNE {})", fpar(s), a[0]),
            Op::SToF => format!("((_ to_fp {}) RNE {})", fpar(s), a[0]),
            Op::UToF => format!("((_ to_fp_unsigned {}) RNE {})", fpar(s), a[0]),
            Op::FToS | Op::FToU => {
                let fs = self.t.sort(n.a[0]);
                let b = s.bits();
                let iv = self.t.fiv(n.a[0]);
                let signed = n.op == Op::FToS;
                let conv = format!("((_ {} {}) RTZ {})", if signed { "fp.to_sbv" } else { "fp.to_ubv" }, b, a[0]);
                let (lo, hi) = if signed { (-(2f64.powi(b as i32 - 1)), 2f64.powi(b as i32 - 1)) } else { (0.0, 2f64.powi(b as i32)) };
                if !iv.nan && iv.lo > lo - 1.0 && iv.lo >= lo && iv.hi < hi {
                    conv
                } else {
                    let k = |x: f64| format!("((_ to_fp {}) {})", fpar(fs), bvlit(fs.bits(), putf(fs, x)));
                    let mx = if signed { mask(b) >> 1 } else { mask(b) };
                    let mn = if signed { 1u128 << (b - 1) } else { 0 };
                    format!(
                        "(ite (fp.isNaN {x}) {z} (ite (fp.geq {x} {}) {} (ite (fp.leq {x} {}) {} {})))",
                        k(hi),
                        bvlit(b, mx),
                        k(lo),
                        bvlit(b, mn),
                        conv,
                        x = a[0],
                        z = bvlit(b, 0)
                    )
                }
            }
            Op::FLt => format!("(fp.lt {} {})", a[0], a[1]),
            Op::FLe => format!("(fp.leq {} {})", a[0], a[1]),
            Op::FEq => format!("(fp.eq {} {})", a[0], a[1]),
            Op::FIsNan => format!("(fp.isNaN {})", a[0]),
            Op::B2F => format!("((_ to_fp {}) {})", fpar(s), a[0]),
            Op::F2B => {
                self.declare(i);
                let fs = self.t.sort(n.a[0]);
                let e = format!("(= ((_ to_fp {}) n{}) {})", fpar(fs), i, a[0]);
                self.assert(&e);
                return;
            }
            Op::Uf | Op::FRem => {
                let srt: Vec<String> = (0..n.n as usize).map(|k| self.sort_name(self.t.sort(n.a[k]))).collect();
                let name = if n.op == Op::Uf { format!("uf{}", n.aux) } else { format!("frem{}", s.bits()) };
                let rs = self.sort_name(s);
                self.once(&name, &format!("(declare-fun {} ({}) {})", name, srt.join(" "), rs));
                let e = format!("({} {})", name, a.join(" "));
                self.def(i, &e);
                let iv = self.t.fiv(i);
                if !iv.nan {
                    let k = |x: f64| format!("((_ to_fp {}) {})", fpar(s), bvlit(s.bits(), putf(s, x)));
                    let e = format!("(and (fp.leq {} n{i}) (fp.leq n{i} {}))", k(iv.lo), k(iv.hi), i = i);
                    self.assert(&e);
                }
                return;
            }
            o => panic!("exact {:?}", o),
        };
        self.def(i, &e);
    }

    fn opaque(&mut self, i: Id) {
        self.declare(i);
        self.bounds(i);
    }
    fn bounds(&mut self, i: Id) {
        match self.t.sort(i) {
            Sort::Bool => {}
            Sort::Bv(b) => {
                if b <= 64 {
                    let (lo, hi) = self.t.biv(i);
                    let e = format!("(and (<= {} n{i}) (<= n{i} {}))", lo, hi, i = i);
                    self.assert(&e);
                } else {
                    let e = format!("(and (<= 0 n{i}) (< n{i} {}))", pow2str(b as u32), i = i);
                    self.assert(&e);
                }
            }
            _ => {
                let iv = self.t.fiv(i);
                if iv.lo.is_finite() && !iv.nan {
                    let e = format!("(<= {} n{})", rat(iv.lo), i);
                    self.assert(&e);
                }
                if iv.hi.is_finite() && !iv.nan {
                    let e = format!("(<= n{} {})", i, rat(iv.hi));
                    self.assert(&e);
                }
            }
        }
    }
    /// n_i = expr + rounding error
    fn rounded(&mut self, i: Id, expr: &str) {
        let iv = self.t.fiv(i);
        if !iv.finite() {
            self.opaque(i);
            return;
        }
        let s = self.t.sort(i);
        let (u, den) = if s == Sort::F32 { (2f64.powi(-24), 2f64.powi(-150)) } else { (2f64.powi(-53), 2f64.powi(-1074)) };
        let mut err = iv.mag() * u;
        if err < den {
            err = den;
        }
        if err < 1e-300 {
            err = 1e-300;
        }
        // keep literals small: round the bound up to a power of two
        err = 2f64.powi(err.log2().ceil() as i32);
        let _ = writeln!(self.out, "(declare-const e{} Real)", i);
        let e = format!("(and (<= (- {r}) e{i}) (<= e{i} {r}))", r = rat(err), i = i);
        self.assert(&e);
        self.def(i, &format!("(+ {} e{})", expr, i));
        self.bounds(i);
    }

    fn real(&mut self, i: Id, nonlinear: bool) {
        let n = self.t.node(i).clone();
        let s = n.sort;
        if n.op == Op::Const {
            if s.is_f() && !getf(s, n.aux).is_finite() {
                self.opaque(i);
            }
            return;
        }
        if n.op == Op::Var {
            self.declare(i);
            let v = &self.t.vars[n.aux as usize];
            let e = if s.is_f() {
                format!("(and (<= {} n{i}) (<= n{i} {}))", rat(v.lo), rat(v.hi), i = i)
            } else {
                format!("(and (<= {} n{i}) (<= n{i} {}))", v.ulo, v.uhi, i = i)
            };
            self.assert(&e);
            return;
        }
        // any nan/inf float argument makes the result opaque
        for k in 0..n.n as usize {
            let a = n.a[k];
            if self.t.sort(a).is_f() && !self.t.fiv(a).finite() && !(n.op == Op::Ite) {
                // comparisons with an infinite (non-nan) side stay opaque too
                self.opaque(i);
                return;
            }
            if let Sort::Bv(b) = self.t.sort(a) {
                if b > 64 {
                    self.opaque(i);
                    return;
                }
            }
        }
        if let Sort::Bv(b) = s {
            if b > 64 {
                self.opaque(i);
                return;
            }
        }
        let a = self.args(i);
        let t = self.t;
        let cst = |k: usize| t.cval(n.a[k]);
        match n.op {
            Op::Not => self.def(i, &format!("(not {})", a[0])),
            Op::And => self.def(i, &format!("(and {} {})", a[0], a[1])),
            Op::Or => self.def(i, &format!("(or {} {})", a[0], a[1])),
            Op::Ite => {
                if s.is_f() && (!t.fiv(n.a[1]).finite() || !t.fiv(n.a[2]).finite()) {
                    self.opaque(i);
                    return;
                }
                self.def(i, &format!("(ite {} {} {})", a[0], a[1], a[2]))
            }
            Op::Eq => self.def(i, &format!("(= {} {})", a[0], a[1])),
            Op::Ult => self.def(i, &format!("(< {} {})", a[0], a[1])),
            Op::Ule => self.def(i, &format!("(<= {} {})", a[0], a[1])),
            Op::Slt | Op::Sle => {
                let b = t.sort(n.a[0]).bits();
                let sg = |k: usize| -> String {
                    let (_, hi) = t.biv(n.a[k]);
                    let half = 1u64 << (b - 1);
                    if hi < half {
                        a[k].clone()
                    } else {
                        format!("(ite (< {x} {h}) {x} (- {x} {m}))", x = a[k], h = half, m = pow2str(b))
                    }
                };
                let e = format!("({} {} {})", if n.op == Op::Slt { "<" } else { "<=" }, sg(0), sg(1));
                self.def(i, &e)
            }
            Op::FLt => self.def(i, &format!("(< {} {})", a[0], a[1])),
            Op::FLe => self.def(i, &format!("(<= {} {})", a[0], a[1])),
            Op::FEq => self.def(i, &format!("(= {} {})", a[0], a[1])),
            Op::FIsNan => self.declare(i),
            Op::Add | Op::Sub => {
                let b = s.bits();
                let e = format!("({} {} {})", if n.op == Op::Add { "+" } else { "-" }, a[0], a[1]);
                let (x, y) = (t.biv(n.a[0]), t.biv(n.a[1]));
                let m = mask(b);
                let nowrap = if n.op == Op::Add { x.1 as u128 + y.1 as u128 <= m } else { x.0 >= y.1 };
                if nowrap {
                    self.def(i, &e);
                } else {
                    let p = pow2str(b);
                    // single wrap
                    let e2 = if n.op == Op::Add { format!("(ite (< {e} {p}) {e} (- {e} {p}))") } else { format!("(ite (>= {e} 0) {e} (+ {e} {p}))") };
                    self.def(i, &e2);
                }
                self.bounds(i);
            }
            Op::Mul => {
                let b = s.bits();
                if cst(0).is_none() && cst(1).is_none() && !nonlinear {
                    self.opaque(i);
                    return;
                }
                let (x, y) = (t.biv(n.a[0]), t.biv(n.a[1]));
                let e = format!("(* {} {})", a[0], a[1]);
                if x.1 as u128 * y.1 as u128 <= mask(b) {
                    self.def(i, &e);
                } else {
                    self.def(i, &format!("(mod {} {})", e, pow2str(b)));
                }
            }
            Op::UDiv if cst(1).is_some() && cst(1) != Some(0) => self.def(i, &format!("(div {} {})", a[0], a[1])),
            Op::URem if cst(1).is_some() && cst(1) != Some(0) => self.def(i, &format!("(mod {} {})", a[0], a[1])),
            Op::ZExt => self.def(i, &a[0].clone()),
            Op::SExt => {
                let b0 = t.sort(n.a[0]).bits();
                let add = mask(s.bits()) - mask(b0);
                let e = format!("(ite (< {x} {}) {x} (+ {x} {}))", 1u128 << (b0 - 1), add, x = a[0]);
                self.def(i, &e)
            }
            Op::Extract => {
                let inner = if n.aux == 0 { a[0].clone() } else { format!("(div {} {})", a[0], pow2str(n.aux as u32)) };
                let (_, hi) = t.biv(n.a[0]);
                if n.aux == 0 && hi as u128 <= mask(s.bits()) {
                    self.def(i, &inner)
                } else {
                    self.def(i, &format!("(mod {} {})", inner, pow2str(s.bits())))
                }
            }
            Op::Concat => self.def(i, &format!("(+ (* {} {}) {})", a[0], pow2str(t.sort(n.a[1]).bits()), a[1])),
            Op::Shl if cst(1).is_some() => {
                let k = cst(1).unwrap() as u32;
                let (_, hi) = t.biv(n.a[0]);
                let e = format!("(* {} {})", a[0], pow2str(k));
                if k < s.bits() && ((hi as u128) << k) <= mask(s.bits()) {
                    self.def(i, &e)
                } else {
                    self.def(i, &format!("(mod {} {})", e, pow2str(s.bits())))
                }
            }
            Op::LShr if cst(1).is_some() => self.def(i, &format!("(div {} {})", a[0], pow2str(cst(1).unwrap() as u32))),
            Op::BAnd if cst(1).map(|k| k & (k + 1) == 0).unwrap_or(false) => {
                self.def(i, &format!("(mod {} {})", a[0], cst(1).unwrap() + 1))
            }
            Op::FNeg => self.def(i, &format!("(- {})", a[0])),
            Op::FAbs => self.def(i, &format!("(ite (>= {x} 0.0) {x} (- {x}))", x = a[0])),
            Op::FAdd => self.rounded(i, &format!("(+ {} {})", a[0], a[1])),
            Op::FMul => {
                if cst(0).is_some() || cst(1).is_some() || nonlinear {
                    // exact when a constant is a power of two
                    let exact = [0, 1].iter().any(|k| {
                        cst(*k)
                            .map(|c| {
                                let x = getf(s, c).abs();
                                x.log2().fract() == 0.0 && x > 1e-20 && x < 1e20
                            })
                            .unwrap_or(false)
                    });
                    let e = format!("(* {} {})", a[0], a[1]);
                    if exact && t.fiv(i).finite() {
                        self.def(i, &e)
                    } else {
                        self.rounded(i, &e)
                    }
                } else {
                    // McCormick envelope
                    self.opaque(i);
                    let (x, y) = (t.fiv(n.a[0]), t.fiv(n.a[1]));
                    if t.fiv(i).finite() {
                        let u = if s == Sort::F32 { 2f64.powi(-23) } else { 2f64.powi(-52) };
                        let eps = rat(t.fiv(i).mag().max(1e-30) * u);
                        let f = |p: f64, q: f64| format!("(- (+ (* {} {}) (* {} {})) (* {} {}))", rat(p), a[1], rat(q), a[0], rat(p), rat(q));
                        let l1 = format!("(>= (+ n{} {}) {})", i, eps, f(x.lo, y.lo));
                        let l2 = format!("(>= (+ n{} {}) {})", i, eps, f(x.hi, y.hi));
                        let l3 = format!("(<= (- n{} {}) {})", i, eps, f(x.hi, y.lo));
                        let l4 = format!("(<= (- n{} {}) {})", i, eps, f(x.lo, y.hi));
                        for l in [l1, l2, l3, l4] {
                            self.assert(&l);
                        }
                    }
                }
            }
            Op::FDiv => {
                if let Some(c) = cst(1) {
                    let x = getf(s, c);
                    if x != 0.0 {
                        self.rounded(i, &format!("(/ {} {})", a[0], rat(x)));
                        return;
                    }
                }
                let d = t.fiv(n.a[1]);
                if nonlinear && (d.lo > 0.0 || d.hi < 0.0) {
                    self.nopq += 1;
                    let q = format!("q{}", i);
                    let _ = writeln!(self.out, "(declare-const {} Real)", q);
                    self.assert(&format!("(= (* {} {}) {})", q, a[1], a[0]));
                    self.rounded(i, &q);
                } else {
                    self.opaque(i)
                }
            }
            Op::FSqrt => {
                if nonlinear && t.fiv(n.a[0]).lo >= 0.0 {
                    let q = format!("q{}", i);
                    let _ = writeln!(self.out, "(declare-const {} Real)", q);
                    self.assert(&format!("(and (>= {q} 0.0) (= (* {q} {q}) {}))", a[0]));
                    self.rounded(i, &q);
                } else {
                    self.opaque(i)
                }
            }
            Op::FRnd => {
                let k = format!("k{}", i);
                let _ = writeln!(self.out, "(declare-const {} Int)", k);
                let r = format!("(to_real {})", k);
                let x = &a[0];
                let e = match n.aux {
                    0 => format!("(and (<= {r} {x}) (< {x} (+ {r} 1.0)))"),
                    1 => format!("(and (>= {r} {x}) (> {x} (- {r} 1.0)))"),
                    2 => format!("(ite (>= {x} 0.0) (and (<= {r} {x}) (< {x} (+ {r} 1.0))) (and (>= {r} {x}) (> {x} (- {r} 1.0))))"),
                    4 => format!(
                        "(ite (>= {x} 0.0) (and (<= {r} (+ {x} 0.5)) (< (+ {x} 0.5) (+ {r} 1.0))) (and (>= {r} (- {x} 0.5)) (> (- {x} 0.5) (- {r} 1.0))))"
                    ),
                    _ => format!("(and (<= (- {r} 0.5) {x}) (<= {x} (+ {r} 0.5)))"),
                };
                self.assert(&e);
                self.def(i, &r);
                self.bounds(i);
            }
            Op::FCvt => {
                if s == Sort::F64 {
                    self.def(i, &a[0].clone())
                } else {
                    self.rounded(i, &a[0].clone())
                }
            }
            Op::SToF | Op::UToF => {
                let b = t.sort(n.a[0]).bits();
                let (_, hi) = t.biv(n.a[0]);
                let half = 1u64 << (b - 1);
                let x = if n.op == Op::SToF && hi >= half {
                    format!("(to_real (ite (< {x} {h}) {x} (- {x} {m})))", x = a[0], h = half, m = pow2str(b))
                } else {
                    format!("(to_real {})", a[0])
                };
                let lim = if s == Sort::F32 { 16777216.0 } else { 9007199254740992.0 };
                if t.fiv(i).mag() <= lim {
                    self.def(i, &x)
                } else {
                    self.rounded(i, &x)
                }
            }
            Op::FToU | Op::FToS => {
                let k = format!("k{}", i);
                let _ = writeln!(self.out, "(declare-const {} Int)", k);
                let r = format!("(to_real {})", k);
                let x = &a[0];
                let e = format!("(ite (>= {x} 0.0) (and (<= {r} {x}) (< {x} (+ {r} 1.0))) (and (>= {r} {x}) (> {x} (- {r} 1.0))))");
                self.assert(&e);
                let b = s.bits();
                let ex = if n.op == Op::FToU {
                    let m = mask(b);
                    format!("(ite (< {k} 0) 0 (ite (> {k} {m}) {m} {k}))")
                } else {
                    let m = mask(b) >> 1;
                    let c = format!("(ite (> {k} {m}) {m} (ite (< {k} (- {})) (- {}) {k}))", m + 1, m + 1);
                    format!("(ite (< {c} 0) (+ {c} {}) {c})", pow2str(b))
                };
                self.def(i, &ex);
                self.bounds(i);
            }
            Op::Uf => {
                let name = format!("uf{}_{}", n.aux, n.n);
                let srt: Vec<String> = (0..n.n as usize).map(|k| self.sort_name(self.t.sort(n.a[k]))).collect();
                let rs = self.sort_name(s);
                self.once(&name, &format!("(declare-fun {} ({}) {})", name, srt.join(" "), rs));
                self.def(i, &format!("({} {})", name, a.join(" ")));
                self.bounds(i);
            }
            _ => self.opaque(i),
        }
    }
}

pub enum Goal {
    /// violated when the Boolean term is false
    Holds(Id),
    /// violated when |a-b| > abs + rel*max(|a|,|b|)  (f64 terms)
    Close(Id, Id, f64, f64),
    /// violated when reachable
    Never,
}

impl Goal {
    pub fn roots(&self) -> Vec<Id> {
        match self {
            Goal::Holds(c) => vec![*c],
            Goal::Close(a, b, _, _) => vec![*a, *b],
            Goal::Never => vec![],
        }
    }
    fn neg(&self, e: &Encoder, t: &Terms) -> Option<String> {
        Some(match self {
            Goal::Holds(c) => format!("(not {})", e.r(*c)),
            Goal::Never => "true".into(),
            Goal::Close(a, b, abs, rel) => match e.enc {
                Enc::Uf => format!("(not (= {} {}))", e.r(*a), e.r(*b)),
                Enc::Real { .. } => {
                    if !t.fiv(*a).finite() || !t.fiv(*b).finite() {
                        return None;
                    }
                    let (x, y) = (e.r(*a), e.r(*b));
                    let lim = if *rel == 0.0 {
                        rat(*abs)
                    } else {
                        let ab = |v: &str| format!("(ite (>= {v} 0.0) {v} (- {v}))");
                        format!("(+ {} (* {} (ite (>= {p} {q}) {p} {q})))", rat(*abs), rat(*rel), p = ab(&x), q = ab(&y))
                    };
                    format!("(or (> (- {x} {y}) {lim}) (< (- {x} {y}) (- {lim})))")
                }
                Enc::Exact => {
                    let d = format!("(fp.abs (fp.sub RNE {} {}))", e.r(*a), e.r(*b));
                    let k = |x: f64| format!("((_ to_fp 11 53) {})", bvlit(64, x.to_bits() as u128));
                    let lim = if *rel == 0.0 {
                        k(*abs)
                    } else {
                        format!("(fp.add RNE {} (fp.mul RNE {} (fp.max (fp.abs {}) (fp.abs {}))))", k(*abs), k(*rel), e.r(*a), e.r(*b))
                    };
                    format!("(and (not (= {} {})) (not (fp.leq {} {})))", e.r(*a), e.r(*b), d, lim)
                }
            },
        })
    }
}

impl Solver {
    pub fn new(dir: &str) -> Solver {
        let _ = std::fs::create_dir_all(dir);
        Solver { st: Stats::default(), dir: dir.to_string(), n: 0, keep: false, last_err: String::new() }
    }

    /// Is the conjunction of `cs` satisfiable?  Used for path feasibility.
    pub fn check(&mut self, t: &mut Terms, cs: &[Id], ms: u64) -> Verdict {
        match self.query(t, &[(cs.to_vec(), Goal::Never)], Enc::Uf, ms.min(2000), false) {
            Verdict::Unsat => return Verdict::Unsat,
            _ => {}
        }
        let has_float = t.cone(cs).iter().any(|i| t.sort(*i).is_f());
        if has_float {
            match self.query(t, &[(cs.to_vec(), Goal::Never)], Enc::Real { nonlinear: false }, ms, true) {
                Verdict::Unsat => return Verdict::Unsat,
                Verdict::Sat(m) => {
                    if self.model_ok(t, cs, &m) {
                        return Verdict::Sat(m);
                    }
                }
                Verdict::Unknown => {}
            }
        }
        self.query(t, &[(cs.to_vec(), Goal::Never)], Enc::Exact, ms, true)
    }

    /// Quick exact evaluation of a candidate model (terms without UF nodes only).
    pub fn model_ok(&self, t: &Terms, cs: &[Id], m: &HashMap<u32, u128>) -> bool {
        let mut v: HashMap<Id, u128> = HashMap::new();
        for i in t.cone(cs) {
            let n = t.node(i);
            let x = match n.op {
                Op::Const => n.aux,
                Op::Var => *m.get(&(n.aux as u32)).unwrap_or(&t.col(i, 0)),
                Op::Uf => return true, // checked by the caller
                _ => {
                    let args: Vec<u128> = (0..n.n as usize).map(|q| v[&n.a[q]]).collect();
                    let srt: Vec<Sort> = (0..n.n as usize).map(|q| t.sort(n.a[q])).collect();
                    fold(n.op, n.sort, n.aux, &srt, &args)
                }
            };
            v.insert(i, x);
        }
        cs.iter().all(|c| v[c] != 0)
    }

    /// Is the given linear query unsatisfiable?
    pub fn raw_unsat(&mut self, s: &str, ms: u64, who: &str) -> bool {
        self.n += 1;
        let path = format!("{}/p{}_{}.smt2", self.dir, std::process::id(), self.n);
        if std::fs::write(&path, s).is_err() {
            return false;
        }
        let start = Instant::now();
        let o = Command::new("z3-new").arg(format!("-T:{}", (ms + 999) / 1000)).arg("-smt2").arg(&path).stdin(Stdio::null()).stderr(Stdio::null()).output();
        self.st.queries += 1;
        self.st.ms += start.elapsed().as_millis() as u64;
        if !self.keep {
            let _ = std::fs::remove_file(&path);
        }
        let o = o.map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or_default();
        match o.as_str() {
            "unsat" => {
                self.st.unsat += 1;
                *self.st.by.entry(format!("z3-new {}", who)).or_insert(0) += 1;
                true
            }
            "sat" => {
                self.st.sat += 1;
                false
            }
            _ => {
                self.st.unknown += 1;
                false
            }
        }
    }

    /// Checks whether any of the goals (pc, goal) can be violated.
    pub fn query(&mut self, t: &Terms, goals: &[(Vec<Id>, Goal)], enc: Enc, ms: u64, model: bool) -> Verdict {
        let mut roots: Vec<Id> = vec![];
        for (pc, g) in goals {
            roots.extend(pc.iter());
            roots.extend(g.roots());
        }
        let mut e = Encoder::new(t, enc);
        e.encode(&roots);
        let mut dis = vec![];
        for (pc, g) in goals {
            let n = match g.neg(&e, t) {
                Some(n) => n,
                None => return Verdict::Unknown,
            };
            let mut c: Vec<String> = pc.iter().map(|p| e.r(*p)).collect();
            c.push(n);
            dis.push(format!("(and {} true)", c.join(" ")));
        }
        let mut s = String::new();
        s.push_str("(set-option :produce-models true)\n(set-logic ALL)\n");
        s.push_str(&e.out);
        let _ = writeln!(s, "(assert (or {} false))", dis.join("\n "));
        s.push_str("(check-sat)\n");
        let mut vars: Vec<(u32, Id)> = vec![];
        if model {
            for i in t.cone(&roots) {
                if t.node(i).op == Op::Var {
                    vars.push((t.node(i).aux as u32, i));
                }
            }
            if !vars.is_empty() {
                let names: Vec<String> = vars
                    .iter()
                    .map(|(_, i)| if enc == Enc::Exact && t.sort(*i).is_f() { format!("b{}", i) } else { format!("n{}", i) })
                    .collect();
                let _ = writeln!(s, "(get-value ({}))", names.join(" "));
            }
        }
        self.st.max_nodes = self.st.max_nodes.max(s.matches("define-fun").count());
        self.n += 1;
        let path = format!("{}/q{}_{}.smt2", self.dir, std::process::id(), self.n);
        if let Err(x) = std::fs::File::create(&path).and_then(|mut f| f.write_all(s.as_bytes())) {
            self.last_err = format!("{}", x);
            return Verdict::Unknown;
        }
        let start = Instant::now();
        let solvers: Vec<Vec<String>> = match enc {
            Enc::Uf => vec![vec!["z3-new".into(), "-smt2".into(), path.clone()]],
            Enc::Real { nonlinear } => {
                let mut v = vec![vec!["z3-new".to_string(), "-smt2".into(), path.clone()]];
                if nonlinear {
                    v.push(vec!["cvc5".into(), format!("--tlimit={}", ms), path.clone()]);
                }
                v
            }
            Enc::Exact => vec![
                vec!["z3-new".into(), "-smt2".into(), path.clone()],
                vec!["cvc5".into(), format!("--tlimit={}", ms), path.clone()],
            ],
        };
        let mut kids = vec![];
        for c in &solvers {
            if let Ok(k) = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
                kids.push(Some(k));
            }
        }
        let mut result: Option<(String, String)> = None;
        let deadline = start + Duration::from_millis(ms);
        let mut wait = 1;
        while result.is_none() {
            let mut alive = false;
            for (idx, k) in kids.iter_mut().enumerate() {
                if let Some(ch) = k {
                    match ch.try_wait() {
                        Ok(Some(_)) => {
                            let mut o = String::new();
                            if let Some(mut so) = ch.stdout.take() {
                                let _ = so.read_to_string(&mut o);
                            }
                            *k = None;
                            let first = o.lines().next().unwrap_or("").trim().to_string();
                            if first == "unsat" || first == "sat" {
                                result = Some((solvers[idx][0].clone(), o));
                                break;
                            } else if o.contains("(error") && first != "unknown" && first != "timeout" {
                                self.st.errors += 1;
                                self.last_err = o.lines().take(3).collect::<Vec<_>>().join(" ");
                            }
                        }
                        Ok(None) => alive = true,
                        Err(_) => *k = None,
                    }
                }
            }
            if result.is_some() || !alive || Instant::now() > deadline {
                break;
            }
            std::thread::sleep(Duration::from_millis(wait));
            wait = (wait + 1).min(10);
        }
        for k in kids.iter_mut() {
            if let Some(ch) = k {
                let _ = ch.kill();
                let _ = ch.wait();
            }
        }
        let el = start.elapsed().as_millis() as u64;
        self.st.queries += 1;
        self.st.ms += el;
        if !self.keep {
            let _ = std::fs::remove_file(&path);
        }
        match result {
            Some((who, o)) => {
                let first = o.lines().next().unwrap_or("").trim();
                if first == "unsat" {
                    self.st.unsat += 1;
                    *self.st.by.entry(format!("{} {:?}", who, enc).replace("{ nonlinear: false }", "-linear").replace("{ nonlinear: true }", "-nonlinear")).or_insert(0) += 1;
                    Verdict::Unsat
                } else {
                    self.st.sat += 1;
                    Verdict::Sat(parse_model(t, &o, &vars))
                }
            }
            None => {
                self.st.unknown += 1;
                Verdict::Unknown
            }
        }
    }
}

#[derive(Debug)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn sx(s: &str) -> Vec<Sx> {
    let mut stack: Vec<Vec<Sx>> = vec![vec![]];
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '(' => {
                stack.push(vec![]);
            }
            ')' => {
                if !cur.is_empty() {
                    stack.last_mut().unwrap().push(Sx::A(std::mem::take(&mut cur)));
                }
                if stack.len() > 1 {
                    let l = stack.pop().unwrap();
                    stack.last_mut().unwrap().push(Sx::L(l));
                }
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    stack.last_mut().unwrap().push(Sx::A(std::mem::take(&mut cur)));
                }
            }
            c => cur.push(c),
        }
    }
    stack.swap_remove(0)
}
fn sxnum(e: &Sx) -> Option<f64> {
    match e {
        Sx::A(s) => s.trim_end_matches('?').parse().ok(),
        Sx::L(l) => match l.first() {
            Some(Sx::A(o)) if o == "-" && l.len() == 2 => Some(-sxnum(&l[1])?),
            Some(Sx::A(o)) if o == "/" => Some(sxnum(&l[1])? / sxnum(&l[2])?),
            Some(Sx::A(o)) if o == "*" => Some(sxnum(&l[1])? * sxnum(&l[2])?),
            _ => None,
        },
    }
}
fn parse_model(t: &Terms, o: &str, vars: &[(u32, Id)]) -> HashMap<u32, u128> {
    let mut m = HashMap::new();
    let rest = o.splitn(2, '\n').nth(1).unwrap_or("");
    let l = sx(rest);
    if let Some(Sx::L(pairs)) = l.first() {
        for (k, p) in pairs.iter().enumerate() {
            if k >= vars.len() {
                break;
            }
            if let Sx::L(pv) = p {
                if pv.len() != 2 {
                    continue;
                }
                let (v, id) = vars[k];
                let sort = t.sort(id);
                let vi = &t.vars[v as usize];
                let val = match &pv[1] {
                    Sx::A(s) if s.starts_with("#x") => u128::from_str_radix(&s[2..], 16).ok(),
                    Sx::A(s) if s.starts_with("#b") => u128::from_str_radix(&s[2..], 2).ok(),
                    e => match sxnum(e) {
                        Some(x) => {
                            if sort.is_f() {
                                Some(putf(sort, x.clamp(vi.lo, vi.hi)))
                            } else {
                                match e {
                                    Sx::A(s) => s.parse::<u128>().ok(),
                                    _ => None,
                                }
                            }
                        }
                        None => None,
                    },
                };
                if let Some(x) = val {
                    m.insert(v, x);
                }
            }
        }
    }
    let _ = ilit(0);
    m
}
