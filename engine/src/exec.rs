//! Symbolic executor over the IR.
use crate::ir::*;
use crate::smt::{Solver, Verdict};
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub tag: Option<Vec<u32>>,
    pub alive: bool,
    pub ro: bool,
    pub heap: bool,
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: Vec<Rc<Obj>>,
    pub free: Vec<u32>,
}

#[derive(Debug)]
pub enum Stop {
    /// Reachable violation (panic, bad memory access, ...).
    Fault(String),
    /// The engine cannot interpret this.
    Unsupported(String),
    /// Path pruned (assumption false).
    Infeasible,
    /// Concretise the register operand and retry.
    Concretise(Opd, Id),
    /// Fork on a condition and retry the instruction.
    Done,
}
type R<T> = Result<T, Stop>;

impl Mem {
    pub fn alloc(&mut self, size: u64, fill: u8, heap: bool) -> u64 {
        let o = Obj { data: vec![fill; size as usize], tag: None, alive: true, ro: false, heap };
        if !heap {
            if let Some(i) = self.free.pop() {
                self.objs[i as usize - 1] = Rc::new(o);
                return (i as u64) << 32;
            }
        }
        self.objs.push(Rc::new(o));
        (self.objs.len() as u64) << 32
    }
    fn locate(&self, addr: u64, n: u64, write: bool) -> R<(usize, usize)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        if id == 0 || id as usize > self.objs.len() {
            return Err(Stop::Fault(format!("invalid pointer {:#x} dereferenced", addr)));
        }
        let o = &self.objs[id as usize - 1];
        if !o.alive {
            return Err(Stop::Fault("use of freed memory".into()));
        }
        if off + n > o.data.len() as u64 {
            return Err(Stop::Fault(format!("out of bounds memory access: offset {} size {} in object of {} bytes", off, n, o.data.len())));
        }
        if write && o.ro {
            return Err(Stop::Fault("write to constant memory".into()));
        }
        Ok((id as usize - 1, off as usize))
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub dst: u32,
    pub allocas: Vec<u32>,
}

pub struct Witness {
    pub vars: HashMap<u32, u128>,
    pub memo: std::cell::RefCell<HashMap<Id, u128>>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Term(Id),
    Choice(u64, u64),
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Rc<Vec<Id>>,
    pub mask: u32,
    pub wits: Vec<Rc<Witness>>,
    pub inputs: Rc<Vec<Input>>,
    pub noalloc: bool,
    pub certain: bool,
    pub trace: Vec<u64>,
    pub steps: u64,
    pub forks: u32,
    pub checks: u32,
}

#[derive(Clone)]
pub enum Kind {
    Check(Id),
    Close(Id, Id, f64, f64),
    Fault,
}

#[derive(Clone)]
pub struct Oblig {
    pub kind: Kind,
    pub msg: String,
    pub pc: Rc<Vec<Id>>,
    pub mask: u32,
    pub wits: Vec<Rc<Witness>>,
    pub inputs: Rc<Vec<Input>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    Defined,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Nop,
    Panic,
    Vp(u8),
    Intr,
    Exact(Op, u8),
    FMin,
    FMax,
    CopySign,
    FmaF,
    Uf,
    Unknown,
}

pub struct Limits {
    pub paths: u64,
    pub steps: u64,
    pub deadline: std::time::Instant,
    pub feas_ms: u64,
}

pub struct Exec {
    pub m: &'static Module,
    pub t: Terms,
    pub s: Solver,
    ext: Vec<Ext>,
    pub base: Mem,
    pub work: Vec<State>,
    pub obligs: Vec<Oblig>,
    pub lim: Limits,
    pub paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub pruned: u64,
    pub feas_unknown: u64,
    pub incomplete: Vec<String>,
    pub concrete: Option<u64>,
    pub funcs_run: HashSet<u32>,
    pub transitions: u64,
    pub traces: Vec<Vec<u64>>,
    varmap: HashMap<(usize, Sort, u64, u64), Id>,
    feas_cache: HashMap<(Vec<Id>, Id), Option<bool>>,
    pub oneshot: bool,
    pub reach: BTreeMap<String, u64>,
    pub sample_states: Vec<String>,
    pub last_inputs: Vec<Input>,
}

/// Crude v0 demangling: the identifiers of the path in order.
fn idents(name: &str) -> Vec<String> {
    let b = name.as_bytes();
    let mut ids: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !b[i - 1].is_ascii_digit()) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if let Ok(n) = name[i..j].parse::<usize>() {
                let mut k = j;
                if k < b.len() && b[k] == b'_' {
                    k += 1;
                }
                if n > 0 && k + n <= b.len() {
                    ids.push(name[k..k + n].to_string());
                    i = k + n;
                    continue;
                }
            }
            i = j;
        } else if b[i] == b's' && i + 1 < b.len() && ids.is_empty() {
            i += 1;
        } else {
            i += 1;
        }
    }
    ids
}

/// (parent ident, last ident) of the path
pub fn last_ident(name: &str) -> (String, String) {
    let ids = idents(name);
    let n = ids.len();
    (if n >= 2 { ids[n - 2].clone() } else { String::new() }, if n >= 1 { ids[n - 1].clone() } else { String::new() })
}

fn classify(f: &Func) -> Ext {
    let n = f.name.as_str();
    if let Some(r) = n.strip_prefix("vp_") {
        let k = match r {
            "f32" => 0,
            "f64" => 1,
            "u64" => 2,
            "choose" => 3,
            "assume" => 4,
            "check" => 5,
            "close" => 6,
            "eq32" => 7,
            "trace" => 8,
            "noalloc" => 9,
            "reach" => 10,
            "eq64" => 11,
            "concrete" => 12,
            _ => return Ext::Unknown,
        };
        return Ext::Vp(k);
    }
    if n.contains("4libm4math") && f.defined {
        let p = n.find("4libm4math").unwrap();
        let rest = &n[p + 10..];
        // collect idents
        let (parent, last) = last_ident(rest);
        let base = last.trim_end_matches('f');
        let exact = match last.as_str() {
            "floor" | "floorf" => Some(Ext::Exact(Op::FRnd, 0)),
            "ceil" | "ceilf" => Some(Ext::Exact(Op::FRnd, 1)),
            "trunc" | "truncf" => Some(Ext::Exact(Op::FRnd, 2)),
            "rint" | "rintf" | "roundeven" | "roundevenf" => Some(Ext::Exact(Op::FRnd, 3)),
            "round" | "roundf" => Some(Ext::Exact(Op::FRnd, 4)),
            "sqrt" | "sqrtf" => Some(Ext::Exact(Op::FSqrt, 0)),
            "fabs" | "fabsf" => Some(Ext::Exact(Op::FAbs, 0)),
            "fmin" | "fminf" => Some(Ext::FMin),
            "fmax" | "fmaxf" => Some(Ext::FMax),
            "copysign" | "copysignf" => Some(Ext::CopySign),
            _ => None,
        };
        let _ = base;
        if let Some(e) = exact {
            if matches!(f.ret, Ty::F32 | Ty::F64) {
                return e;
            }
        }
        if parent == last && matches!(f.ret, Ty::F32 | Ty::F64) {
            return Ext::Uf;
        }
        return Ext::Defined;
    }
    if n.contains("4libm4math") && !f.defined {
        return Ext::Unknown;
    }
    if f.defined {
        return Ext::Defined;
    }
    if n.contains("___rust_alloc_zeroed") {
        return Ext::AllocZeroed;
    }
    if n.contains("___rust_realloc") {
        return Ext::Realloc;
    }
    if n.contains("___rust_dealloc") {
        return Ext::Dealloc;
    }
    if n.contains("no_alloc_shim") {
        return Ext::Nop;
    }
    if n.contains("___rust_alloc") {
        return Ext::Alloc;
    }
    if n.starts_with("llvm.") || n == "memcpy" || n == "memmove" || n == "memset" || n == "memcmp" || n == "bcmp" || n == "fmodf" || n == "fmod" {
        return Ext::Intr;
    }
    if n.contains("9panicking")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
        || n.contains("handle_error")
        || n.contains("handle_alloc_error")
        || n.contains("_fail")
        || n.contains("capacity_overflow")
        || n.contains("panic_")
        || n.contains("already_borrowed")
        || n.contains("already_mutably_borrowed")
        || n == "abort"
    {
        return Ext::Panic;
    }
    Ext::Unknown
}

pub fn smask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}

pub fn sort_of(t: &Ty) -> Sort {
    match t {
        Ty::Int(1) => Sort::Bool,
        Ty::Int(n) => Sort::Bv(*n as u8),
        Ty::F32 => Sort::F32,
        Ty::F64 => Sort::F64,
        Ty::Ptr => Sort::Bv(64),
        _ => panic!("sort_of {:?}", t),
    }
}

fn cbits(v: &V) -> Option<u128> {
    match v {
        V::C(x) => Some(*x as u128),
        V::W(x) => Some(**x),
        _ => None,
    }
}

impl Exec {
    pub fn new(m: &'static Module, seed: u64, lim: Limits, s: Solver) -> Exec {
        let mut base = Mem::default();
        for g in &m.globals {
            base.objs.push(Rc::new(Obj { data: g.init.clone(), tag: None, alive: true, ro: g.constant, heap: false }));
        }
        let ext = m.funcs.iter().map(classify).collect();
        Exec {
            m,
            t: Terms::new(seed),
            s,
            ext,
            base,
            work: vec![],
            obligs: vec![],
            lim,
            paths: 0,
            steps: 0,
            forks: 0,
            pruned: 0,
            feas_unknown: 0,
            incomplete: vec![],
            concrete: None,
            funcs_run: HashSet::new(),
            transitions: 0,
            traces: vec![],
            varmap: HashMap::new(),
            feas_cache: HashMap::new(),
            oneshot: false,
            reach: BTreeMap::new(),
            sample_states: vec![],
            last_inputs: vec![],
        }
    }

    pub fn frame(&self, f: u32, args: Vec<V>, dst: u32) -> Frame {
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![V::C(0); fun.nregs as usize];
        for (p, a) in fun.params.iter().zip(args) {
            regs[*p as usize] = a;
        }
        Frame { f, block: 0, ip: 0, regs, dst, allocas: vec![] }
    }

    pub fn start(&mut self, f: u32) {
        let fr = self.frame(f, vec![], NONE);
        self.work.push(State {
            frames: vec![fr],
            mem: self.base.clone(),
            pc: Rc::new(vec![]),
            mask: u32::MAX,
            wits: vec![],
            inputs: Rc::new(vec![]),
            noalloc: false,
            certain: true,
            trace: vec![],
            steps: 0,
            forks: 0,
            checks: 0,
        });
    }

    fn tm(&mut self, v: &V, ty: &Ty) -> Id {
        match v {
            V::T(i) => *i,
            V::C(x) => self.t.cst(sort_of(ty), *x as u128),
            V::W(x) => self.t.cst(sort_of(ty), **x),
            V::Agg(_) => panic!("term of aggregate"),
        }
    }
    fn vl(&self, i: Id) -> V {
        let n = self.t.node(i);
        if n.op == Op::Const {
            if n.sort.bits() > 64 {
                V::W(Rc::new(n.aux))
            } else {
                V::C(n.aux as u64)
            }
        } else {
            V::T(i)
        }
    }

    fn get(fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    // ---------------------------------------------------------------- scalars

    fn bin1(&mut self, op: Bin, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            match ty {
                Ty::F32 => {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    let r = match op {
                        Bin::FAdd => p + q,
                        Bin::FSub => p - q,
                        Bin::FMul => p * q,
                        Bin::FDiv => p / q,
                        Bin::FRem => p % q,
                        _ => unreachable!(),
                    };
                    return Ok(V::C(r.to_bits() as u64));
                }
                Ty::F64 => {
                    let (p, q) = (f64::from_bits(x), f64::from_bits(y));
                    let r = match op {
                        Bin::FAdd => p + q,
                        Bin::FSub => p - q,
                        Bin::FMul => p * q,
                        Bin::FDiv => p / q,
                        Bin::FRem => p % q,
                        _ => unreachable!(),
                    };
                    return Ok(V::C(r.to_bits()));
                }
                Ty::Int(n) => {
                    let n = *n;
                    let m = smask(n);
                    let sx = |v: u64| -> i64 {
                        if n >= 64 {
                            v as i64
                        } else {
                            ((v << (64 - n)) as i64) >> (64 - n)
                        }
                    };
                    let r = match op {
                        Bin::Add => x.wrapping_add(y),
                        Bin::Sub => x.wrapping_sub(y),
                        Bin::Mul => x.wrapping_mul(y),
                        Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Stop::Fault("division by zero".into())),
                        Bin::UDiv => x / y,
                        Bin::URem => x % y,
                        Bin::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                        Bin::SRem => sx(x).wrapping_rem(sx(y)) as u64,
                        Bin::And => x & y,
                        Bin::Or => x | y,
                        Bin::Xor => x ^ y,
                        Bin::Shl => {
                            if y >= n as u64 {
                                0
                            } else {
                                x << y
                            }
                        }
                        Bin::LShr => {
                            if y >= n as u64 {
                                0
                            } else {
                                x >> y
                            }
                        }
                        Bin::AShr => (sx(x) >> y.min(n as u64 - 1).min(63)) as u64,
                        _ => unreachable!(),
                    };
                    return Ok(V::C(r & m));
                }
                _ => {}
            }
        }
        let x = self.tm(a, ty);
        let y = self.tm(b, ty);
        let s = sort_of(ty);
        let r = if s == Sort::Bool {
            match op {
                Bin::And | Bin::Mul => self.t.and(x, y),
                Bin::Or => self.t.or(x, y),
                Bin::Xor | Bin::Add | Bin::Sub => {
                    let e = self.t.eq(x, y);
                    self.t.not(e)
                }
                _ => return Err(Stop::Unsupported(format!("bool op {:?}", op))),
            }
        } else {
            let o = match op {
                Bin::Add => Op::Add,
                Bin::Sub => Op::Sub,
                Bin::Mul => Op::Mul,
                Bin::UDiv => Op::UDiv,
                Bin::SDiv => Op::SDiv,
                Bin::URem => Op::URem,
                Bin::SRem => Op::SRem,
                Bin::And => Op::BAnd,
                Bin::Or => Op::BOr,
                Bin::Xor => Op::BXor,
                Bin::Shl => Op::Shl,
                Bin::LShr => Op::LShr,
                Bin::AShr => Op::AShr,
                Bin::FAdd => Op::FAdd,
                Bin::FSub => {
                    let r = self.t.fsub(x, y);
                    return Ok(self.vl(r));
                }
                Bin::FMul => Op::FMul,
                Bin::FDiv => Op::FDiv,
                Bin::FRem => Op::FRem,
            };
            self.t.mk(o, s, 0, &[x, y])
        };
        Ok(self.vl(r))
    }

    fn icmp1(&mut self, p: IP, ty: &Ty, a: &V, b: &V) -> V {
        let bits = ty.bits();
        if let (Some(x), Some(y)) = (cbits(a), cbits(b)) {
            let (sx, sy) = (sext(x, bits), sext(y, bits));
            let r = match p {
                IP::Eq => x == y,
                IP::Ne => x != y,
                IP::Ugt => x > y,
                IP::Uge => x >= y,
                IP::Ult => x < y,
                IP::Ule => x <= y,
                IP::Sgt => sx > sy,
                IP::Sge => sx >= sy,
                IP::Slt => sx < sy,
                IP::Sle => sx <= sy,
            };
            return V::C(r as u64);
        }
        let x = self.tm(a, ty);
        let y = self.tm(b, ty);
        let r = if bits == 1 {
            let e = self.t.eq(x, y);
            match p {
                IP::Eq => e,
                IP::Ne => self.t.not(e),
                IP::Ult | IP::Sgt => {
                    let nx = self.t.not(x);
                    self.t.and(nx, y)
                }
                IP::Ugt | IP::Slt => {
                    let ny = self.t.not(y);
                    self.t.and(x, ny)
                }
                IP::Ule | IP::Sge => {
                    let nx = self.t.not(x);
                    self.t.or(nx, y)
                }
                IP::Uge | IP::Sle => {
                    let ny = self.t.not(y);
                    self.t.or(x, ny)
                }
            }
        } else {
            match p {
                IP::Eq => self.t.eq(x, y),
                IP::Ne => {
                    let e = self.t.eq(x, y);
                    self.t.not(e)
                }
                IP::Ult => self.t.mk(Op::Ult, Sort::Bool, 0, &[x, y]),
                IP::Ule => self.t.mk(Op::Ule, Sort::Bool, 0, &[x, y]),
                IP::Ugt => self.t.mk(Op::Ult, Sort::Bool, 0, &[y, x]),
                IP::Uge => self.t.mk(Op::Ule, Sort::Bool, 0, &[y, x]),
                IP::Slt => self.t.mk(Op::Slt, Sort::Bool, 0, &[x, y]),
                IP::Sle => self.t.mk(Op::Sle, Sort::Bool, 0, &[x, y]),
                IP::Sgt => self.t.mk(Op::Slt, Sort::Bool, 0, &[y, x]),
                IP::Sge => self.t.mk(Op::Sle, Sort::Bool, 0, &[y, x]),
            }
        };
        self.vl(r)
    }

    fn fcmp1(&mut self, p: FP, ty: &Ty, a: &V, b: &V) -> V {
        if let (Some(x), Some(y)) = (cbits(a), cbits(b)) {
            let s = sort_of(ty);
            let (x, y) = (getf(s, x), getf(s, y));
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                FP::False => false,
                FP::True => true,
                FP::Oeq => x == y,
                FP::Ogt => x > y,
                FP::Oge => x >= y,
                FP::Olt => x < y,
                FP::Ole => x <= y,
                FP::One => !un && x != y,
                FP::Ord => !un,
                FP::Ueq => un || x == y,
                FP::Ugt => un || x > y,
                FP::Uge => un || x >= y,
                FP::Ult => un || x < y,
                FP::Ule => un || x <= y,
                FP::Une => x != y,
                FP::Uno => un,
            };
            return V::C(r as u64);
        }
        let x = self.tm(a, ty);
        let y = self.tm(b, ty);
        let b = Sort::Bool;
        let t = &mut self.t;
        let r = match p {
            FP::False => t.bool(false),
            FP::True => t.bool(true),
            FP::Oeq => t.mk(Op::FEq, b, 0, &[x, y]),
            FP::Olt => t.mk(Op::FLt, b, 0, &[x, y]),
            FP::Ole => t.mk(Op::FLe, b, 0, &[x, y]),
            FP::Ogt => t.mk(Op::FLt, b, 0, &[y, x]),
            FP::Oge => t.mk(Op::FLe, b, 0, &[y, x]),
            FP::Une => {
                let e = t.mk(Op::FEq, b, 0, &[x, y]);
                t.not(e)
            }
            FP::Ugt => {
                let e = t.mk(Op::FLe, b, 0, &[x, y]);
                t.not(e)
            }
            FP::Uge => {
                let e = t.mk(Op::FLt, b, 0, &[x, y]);
                t.not(e)
            }
            FP::Ult => {
                let e = t.mk(Op::FLe, b, 0, &[y, x]);
                t.not(e)
            }
            FP::Ule => {
                let e = t.mk(Op::FLt, b, 0, &[y, x]);
                t.not(e)
            }
            FP::Uno | FP::Ord | FP::One | FP::Ueq => {
                let n1 = t.mk(Op::FIsNan, b, 0, &[x]);
                let n2 = t.mk(Op::FIsNan, b, 0, &[y]);
                let un = t.or(n1, n2);
                let e = t.mk(Op::FEq, b, 0, &[x, y]);
                match p {
                    FP::Uno => un,
                    FP::Ord => t.not(un),
                    FP::Ueq => t.or(un, e),
                    _ => {
                        let o = t.or(un, e);
                        t.not(o)
                    }
                }
            }
        };
        self.vl(r)
    }

    fn to_bv(&mut self, i: Id) -> Id {
        match self.t.sort(i) {
            Sort::Bool => {
                let o = self.t.cst(Sort::Bv(1), 1);
                let z = self.t.cst(Sort::Bv(1), 0);
                self.t.ite(i, o, z)
            }
            Sort::F32 => self.t.mk(Op::F2B, Sort::Bv(32), 0, &[i]),
            Sort::F64 => self.t.mk(Op::F2B, Sort::Bv(64), 0, &[i]),
            _ => i,
        }
    }
    fn bv_to(&mut self, i: Id, ty: &Ty) -> Id {
        match ty {
            Ty::F32 => self.t.mk(Op::B2F, Sort::F32, 0, &[i]),
            Ty::F64 => self.t.mk(Op::B2F, Sort::F64, 0, &[i]),
            Ty::Int(1) => {
                let b = self.t.mk(Op::Extract, Sort::Bv(1), 0, &[i]);
                let o = self.t.cst(Sort::Bv(1), 1);
                self.t.eq(b, o)
            }
            _ => i,
        }
    }

    fn cast1(&mut self, c: Cast, from: &Ty, to: &Ty, v: &V) -> R<V> {
        let fb = from.bits();
        let tb = to.bits();
        if let Some(x) = cbits(v) {
            let r: u128 = match c {
                Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr | Cast::Bitcast => x & mask(tb),
                Cast::SExt => (sext(x, fb) as u128) & mask(tb),
                _ => {
                    let (op, s) = match c {
                        Cast::FpTrunc | Cast::FpExt => (Op::FCvt, sort_of(to)),
                        Cast::FpToSi => (Op::FToS, Sort::Bv(tb as u8)),
                        Cast::FpToUi => (Op::FToU, Sort::Bv(tb as u8)),
                        Cast::SiToFp => (Op::SToF, sort_of(to)),
                        Cast::UiToFp => (Op::UToF, sort_of(to)),
                        _ => unreachable!(),
                    };
                    let fs = match from {
                        Ty::Int(n) => Sort::Bv(*n as u8),
                        t => sort_of(t),
                    };
                    fold(op, s, 0, &[fs], &[x])
                }
            };
            return Ok(mkint(tb, r));
        }
        let i = self.tm(v, from);
        let r = match c {
            Cast::Bitcast => {
                let b = self.to_bv(i);
                self.bv_to(b, to)
            }
            Cast::PtrToInt | Cast::IntToPtr | Cast::Trunc | Cast::ZExt => {
                if fb == tb {
                    i
                } else if fb == 1 {
                    let o = self.t.cst(Sort::Bv(tb as u8), 1);
                    let z = self.t.cst(Sort::Bv(tb as u8), 0);
                    self.t.ite(i, o, z)
                } else if tb < fb {
                    if tb == 1 {
                        self.bv_to(i, to)
                    } else {
                        self.t.mk(Op::Extract, Sort::Bv(tb as u8), 0, &[i])
                    }
                } else {
                    self.t.mk(Op::ZExt, Sort::Bv(tb as u8), 0, &[i])
                }
            }
            Cast::SExt => {
                if fb == 1 {
                    let o = self.t.cst(Sort::Bv(tb as u8), u128::MAX);
                    let z = self.t.cst(Sort::Bv(tb as u8), 0);
                    self.t.ite(i, o, z)
                } else {
                    self.t.mk(Op::SExt, Sort::Bv(tb as u8), 0, &[i])
                }
            }
            Cast::FpTrunc | Cast::FpExt => self.t.mk(Op::FCvt, sort_of(to), 0, &[i]),
            Cast::FpToSi => self.t.mk(Op::FToS, Sort::Bv(tb as u8), 0, &[i]),
            Cast::FpToUi => self.t.mk(Op::FToU, Sort::Bv(tb as u8), 0, &[i]),
            Cast::SiToFp | Cast::UiToFp => {
                let i = self.to_bv(i);
                self.t.mk(if c == Cast::SiToFp { Op::SToF } else { Op::UToF }, sort_of(to), 0, &[i])
            }
        };
        Ok(self.vl(r))
    }

    fn flatten_bits(&mut self, ty: &Ty, v: &V) -> V {
        // value -> single integer of ty.bits()
        match (ty, v) {
            (Ty::Vec(n, e), V::Agg(a)) => {
                let eb = e.bits();
                if a.iter().all(|x| cbits(x).is_some()) {
                    let mut r = 0u128;
                    for k in 0..*n as usize {
                        r |= (cbits(&a[k]).unwrap() & mask(eb)) << (k as u32 * eb);
                    }
                    return mkint(n * eb, r);
                }
                let mut acc: Option<Id> = None;
                for k in 0..*n as usize {
                    let i = self.tm(&a[k], e);
                    let b = self.to_bv(i);
                    acc = Some(match acc {
                        None => b,
                        Some(p) => {
                            let bits = self.t.sort(p).bits() + eb;
                            self.t.mk(Op::Concat, Sort::Bv(bits as u8), 0, &[b, p])
                        }
                    });
                }
                self.vl(acc.unwrap())
            }
            (t, V::T(i)) => {
                let _ = t;
                let b = self.to_bv(*i);
                self.vl(b)
            }
            (_, v) => v.clone(),
        }
    }

    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if c == Cast::Bitcast && (matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..))) {
            if from == to {
                return Ok(v.clone());
            }
            // lane-compatible
            if let (Ty::Vec(n, a), Ty::Vec(m, b)) = (from, to) {
                if n == m {
                    if let V::Agg(l) = v {
                        let mut out = Vec::with_capacity(l.len());
                        for x in l.iter() {
                            out.push(self.cast1(Cast::Bitcast, a, b, x)?);
                        }
                        return Ok(V::Agg(out.into()));
                    }
                }
            }
            let tot = from.bits();
            if tot > 128 {
                // split into 128-bit-or-smaller groups via bytes
                if let (Ty::Vec(n, a), Ty::Vec(m, b), V::Agg(l)) = (from, to, v) {
                    let (ab, bb) = (a.bits(), b.bits());
                    let mut out = vec![];
                    if ab < bb {
                        let g = (bb / ab) as usize;
                        let sub = Ty::Vec(g as u32, a.clone());
                        for k in 0..*m as usize {
                            let part = V::Agg(l[k * g..(k + 1) * g].to_vec().into());
                            out.push(self.cast(Cast::Bitcast, &sub, b, &part)?);
                        }
                    } else {
                        let g = ab / bb;
                        let sub = Ty::Vec(g, b.clone());
                        for k in 0..*n as usize {
                            match self.cast(Cast::Bitcast, a, &sub, &l[k])? {
                                V::Agg(p) => out.extend(p.iter().cloned()),
                                _ => unreachable!(),
                            }
                        }
                    }
                    return Ok(V::Agg(out.into()));
                }
                return Err(Stop::Unsupported("wide bitcast".into()));
            }
            let flat = self.flatten_bits(from, v);
            return match to {
                Ty::Vec(n, e) => {
                    let eb = e.bits();
                    let mut out = vec![];
                    for k in 0..*n {
                        match cbits(&flat) {
                            Some(x) => out.push(mkint(eb, x >> (k * eb))),
                            None => {
                                let i = self.tm(&flat, &Ty::Int(tot));
                                let x = self.t.mk(Op::Extract, Sort::Bv(eb as u8), (k * eb) as u128, &[i]);
                                let y = self.bv_to(x, e);
                                out.push(self.vl(y));
                            }
                        }
                    }
                    Ok(V::Agg(out.into()))
                }
                t => match cbits(&flat) {
                    Some(x) => Ok(mkint(tot, x)),
                    None => {
                        let i = self.tm(&flat, &Ty::Int(tot));
                        let r = self.bv_to(i, t);
                        Ok(self.vl(r))
                    }
                },
            };
        }
        match (from, to, v) {
            (Ty::Vec(_, a), Ty::Vec(_, b), V::Agg(l)) => {
                let mut out = Vec::with_capacity(l.len());
                for x in l.iter() {
                    out.push(self.cast1(c, a, b, x)?);
                }
                Ok(V::Agg(out.into()))
            }
            _ => self.cast1(c, from, to, v),
        }
    }

    // ---------------------------------------------------------------- memory

    fn load_scalar(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        let bits = ty.bits();
        let n = ((bits + 7) / 8) as usize;
        let (id, off) = st.mem.locate(addr, n as u64, false)?;
        let o = &st.mem.objs[id];
        if let Some(tag) = &o.tag {
            let tg = &tag[off..off + n];
            if tg.iter().any(|t| *t != 0) {
                let t0 = tg[0];
                let id0 = (t0 >> 4).wrapping_sub(1);
                if t0 != 0 && t0 & 15 == 0 && tg.iter().enumerate().all(|(k, t)| *t == t0 + k as u32) {
                    let tb = self.t.sort(id0).bits();
                    if (tb + 7) / 8 == n as u32 {
                        let s = self.t.sort(id0);
                        if *ty != Ty::Int(1) && s == sort_of(ty) {
                            return Ok(V::T(id0));
                        }
                        let b = self.to_bv(id0);
                        if self.t.sort(b).bits() > bits && bits > 1 {
                            let e = self.t.mk(Op::Extract, Sort::Bv(bits as u8), 0, &[b]);
                            return Ok(self.vl(e));
                        }
                        let r = self.bv_to(b, ty);
                        return Ok(self.vl(r));
                    }
                }
                // assemble bytewise
                let data: Vec<u8> = o.data[off..off + n].to_vec();
                let tg: Vec<u32> = tg.to_vec();
                let mut acc: Option<Id> = None;
                let mut k = 0;
                while k < n {
                    // find maximal run
                    let mut j = k + 1;
                    let piece;
                    if tg[k] == 0 {
                        while j < n && tg[j] == 0 {
                            j += 1;
                        }
                        let mut v = 0u128;
                        for q in k..j {
                            v |= (data[q] as u128) << (8 * (q - k));
                        }
                        piece = self.t.cst(Sort::Bv(8 * (j - k) as u8), v);
                    } else {
                        while j < n && tg[j] == tg[k] + (j - k) as u32 && (tg[j] >> 4) == (tg[k] >> 4) {
                            j += 1;
                        }
                        let b = self.to_bv((tg[k] >> 4) - 1);
                        piece = self.t.mk(Op::Extract, Sort::Bv(8 * (j - k) as u8), 8 * (tg[k] & 15) as u128, &[b]);
                    }
                    acc = Some(match acc {
                        None => piece,
                        Some(p) => {
                            let nb = self.t.sort(p).bits() + self.t.sort(piece).bits();
                            self.t.mk(Op::Concat, Sort::Bv(nb as u8), 0, &[piece, p])
                        }
                    });
                    k = j;
                }
                let mut b = acc.unwrap();
                if self.t.sort(b).bits() > bits && bits > 1 {
                    b = self.t.mk(Op::Extract, Sort::Bv(bits as u8), 0, &[b]);
                }
                let r = self.bv_to(b, ty);
                return Ok(self.vl(r));
            }
        }
        let d = &o.data[off..off + n];
        if n <= 8 {
            let mut x = 0u64;
            for k in (0..n).rev() {
                x = (x << 8) | d[k] as u64;
            }
            Ok(V::C(x & smask(bits)))
        } else {
            let mut x = 0u128;
            for k in (0..n).rev() {
                x = (x << 8) | d[k] as u128;
            }
            Ok(mkint(bits, x))
        }
    }

    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Vec(n, e) => {
                if **e == Ty::Int(1) {
                    let v = self.load_scalar(st, addr, &Ty::Int(*n))?;
                    return self.cast(Cast::Bitcast, &Ty::Int(*n), ty, &v);
                }
                let s = e.size();
                let mut out = Vec::with_capacity(*n as usize);
                for k in 0..*n as u64 {
                    out.push(self.load_scalar(st, addr + k * s, e)?);
                }
                Ok(V::Agg(out.into()))
            }
            Ty::Arr(n, e) => {
                let s = e.size();
                let mut out = Vec::with_capacity(*n as usize);
                for k in 0..*n {
                    out.push(self.load(st, addr + k * s, e)?);
                }
                Ok(V::Agg(out.into()))
            }
            Ty::Struct(f, _) => {
                let mut out = Vec::with_capacity(f.len());
                for k in 0..f.len() {
                    out.push(self.load(st, addr + ty.field_off(k), &f[k])?);
                }
                Ok(V::Agg(out.into()))
            }
            _ => self.load_scalar(st, addr, ty),
        }
    }

    fn store_scalar(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        let bits = ty.bits();
        let n = ((bits + 7) / 8) as usize;
        let (id, off) = st.mem.locate(addr, n as u64, true)?;
        let mut v = v.clone();
        if let V::T(i) = v {
            // widen bools and odd widths to bytes
            let s = self.t.sort(i);
            if s == Sort::Bool || s.bits() as usize != n * 8 {
                let b = self.to_bv(i);
                let z = self.t.mk(Op::ZExt, Sort::Bv((n * 8) as u8), 0, &[b]);
                v = self.vl(z);
            }
        }
        let o = Rc::make_mut(&mut st.mem.objs[id]);
        match v {
            V::C(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(t) = &mut o.tag {
                    for q in &mut t[off..off + n] {
                        *q = 0;
                    }
                }
            }
            V::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(t) = &mut o.tag {
                    for q in &mut t[off..off + n] {
                        *q = 0;
                    }
                }
            }
            V::T(i) => {
                let len = o.data.len();
                let t = o.tag.get_or_insert_with(|| vec![0; len]);
                for k in 0..n {
                    t[off + k] = ((i + 1) << 4) | k as u32;
                }
            }
            V::Agg(_) => return Err(Stop::Unsupported("store agg".into())),
        }
        Ok(())
    }

    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, e), V::Agg(a)) => {
                if **e == Ty::Int(1) {
                    let f = self.flatten_bits(ty, v);
                    return self.store_scalar(st, addr, &Ty::Int(*n), &f);
                }
                let s = e.size();
                for k in 0..a.len() {
                    self.store_scalar(st, addr + k as u64 * s, e, &a[k])?;
                }
                Ok(())
            }
            (Ty::Arr(_, e), V::Agg(a)) => {
                let s = e.size();
                for k in 0..a.len() {
                    self.store(st, addr + k as u64 * s, e, &a[k])?;
                }
                Ok(())
            }
            (Ty::Struct(f, _), V::Agg(a)) => {
                for k in 0..f.len() {
                    self.store(st, addr + ty.field_off(k), &f[k], &a[k])?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, addr, ty, v),
        }
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = st.mem.locate(s, n, false)?;
        let (di, dof) = st.mem.locate(d, n, true)?;
        let n = n as usize;
        let src = st.mem.objs[si].clone();
        let o = Rc::make_mut(&mut st.mem.objs[di]);
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match &src.tag {
            Some(t) => {
                let len = o.data.len();
                let dt = o.tag.get_or_insert_with(|| vec![0; len]);
                dt[dof..dof + n].copy_from_slice(&t[so..so + n]);
            }
            None => {
                if let Some(t) = &mut o.tag {
                    for q in &mut t[dof..dof + n] {
                        *q = 0;
                    }
                }
            }
        }
        Ok(())
    }

    fn addr(&mut self, fr: &Frame, o: &Opd) -> R<u64> {
        match Self::get(fr, o) {
            V::C(x) => Ok(x),
            V::T(i) => Err(Stop::Concretise(o.clone(), i)),
            _ => Err(Stop::Unsupported("address kind".into())),
        }
    }
    fn conc(&mut self, fr: &Frame, o: &Opd) -> R<u64> {
        self.addr(fr, o)
    }

    // ---------------------------------------------------------------- feasibility

    pub fn eval_wit(&mut self, w: &Rc<Witness>, i: Id) -> u128 {
        let cone = {
            let memo = w.memo.borrow();
            if let Some(v) = memo.get(&i) {
                return *v;
            }
            let mut seen: HashSet<Id> = HashSet::new();
            let mut st = vec![i];
            while let Some(k) = st.pop() {
                if memo.contains_key(&k) || !seen.insert(k) {
                    continue;
                }
                let n = self.t.node(k);
                for q in 0..n.n as usize {
                    st.push(n.a[q]);
                }
            }
            let mut v: Vec<Id> = seen.into_iter().collect();
            v.sort();
            v
        };
        for k in cone {
            let n = self.t.node(k).clone();
            let v = match n.op {
                Op::Const => n.aux,
                Op::Var => *w.vars.get(&(n.aux as u32)).unwrap_or(&self.t.col(k, 0)),
                Op::Uf => {
                    let args: Vec<u128> = (0..n.n as usize).map(|q| w.memo.borrow()[&n.a[q]]).collect();
                    let name = self.t.ufs[n.aux as usize].clone();
                    let f = self.m.fmap[&name];
                    self.call_concrete(f, args.iter().map(|a| V::C(*a as u64)).collect()).unwrap_or(0)
                }
                _ => {
                    let args: Vec<u128> = (0..n.n as usize).map(|q| w.memo.borrow()[&n.a[q]]).collect();
                    let srt: Vec<Sort> = (0..n.n as usize).map(|q| self.t.sort(n.a[q])).collect();
                    fold(n.op, n.sort, n.aux, &srt, &args)
                }
            };
            w.memo.borrow_mut().insert(k, v);
        }
        let r = w.memo.borrow()[&i];
        r
    }

    /// Is pc && c satisfiable? Returns (feasible, witness if found by the solver).
    fn feasible(&mut self, st: &State, c: Id) -> (bool, Option<Rc<Witness>>) {
        let nc = self.t.not(c);
        if st.pc.contains(&nc) {
            return (false, None);
        }
        let mut key: Vec<Id> = st.pc.to_vec();
        key.sort();
        if let Some(r) = self.feas_cache.get(&(key.clone(), c)) {
            if *r == Some(false) {
                return (false, None);
            }
        }
        if std::time::Instant::now() > self.lim.deadline {
            self.feas_unknown += 1;
            return (true, None);
        }
        let mut cs = st.pc.to_vec();
        cs.push(c);
        let v = self.s.check(&mut self.t, &cs, self.lim.feas_ms);
        match v {
            Verdict::Unsat => {
                self.feas_cache.insert((key, c), Some(false));
                (false, None)
            }
            Verdict::Sat(vars) => {
                let w = Rc::new(Witness { vars, memo: Default::default() });
                let ok = cs.iter().all(|x| self.eval_wit(&w, *x) != 0);
                if ok {
                    (true, Some(w))
                } else {
                    self.feas_unknown += 1;
                    (true, None)
                }
            }
            Verdict::Unknown => {
                self.feas_unknown += 1;
                (true, None)
            }
        }
    }

    /// Restrict a state to condition c. Returns None if infeasible.
    fn restrict(&mut self, st: &State, c: Id) -> Option<State> {
        if let Some(k) = self.t.cval(c) {
            return if k != 0 { Some(st.clone()) } else { None };
        }
        if st.pc.contains(&c) {
            return Some(st.clone());
        }
        let bm = self.t.boolmask(c) & st.mask;
        let mut wits: Vec<Rc<Witness>> = vec![];
        for w in st.wits.clone() {
            if self.eval_wit(&w, c) != 0 {
                wits.push(w);
            }
        }
        let mut certain = st.certain;
        if bm == 0 && wits.is_empty() {
            let (f, w) = self.feasible(st, c);
            if !f {
                self.pruned += 1;
                return None;
            }
            match w {
                Some(w) => {
                    wits.push(w);
                    certain = true;
                }
                None => certain = false,
            }
        } else {
            certain = true;
        }
        let mut s = st.clone();
        let mut pc = st.pc.to_vec();
        pc.push(c);
        s.pc = Rc::new(pc);
        s.mask = bm;
        s.wits = wits;
        s.certain = certain;
        Some(s)
    }

    // ---------------------------------------------------------------- calls

    pub fn call_concrete(&mut self, f: u32, args: Vec<V>) -> Option<u128> {
        let fr = self.frame(f, args, NONE);
        let mut st = State {
            frames: vec![fr],
            mem: self.base.clone(),
            pc: Rc::new(vec![]),
            mask: 0,
            wits: vec![],
            inputs: Rc::new(vec![]),
            noalloc: false,
            certain: true,
            trace: vec![],
            steps: 0,
            forks: 0,
            checks: 0,
        };
        loop {
            match self.step(&mut st) {
                Ok(Some(v)) => return cbits(&v),
                Ok(None) => {}
                Err(_) => return None,
            }
        }
    }

    /// Replaces variables by terms they are known to be equal to.
    pub fn subst(&mut self, i: Id, map: &HashMap<Id, Id>, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(r) = map.get(&i) {
            return *r;
        }
        if let Some(r) = memo.get(&i) {
            return *r;
        }
        let n = self.t.node(i).clone();
        let mut a = n.a;
        for k in 0..n.n as usize {
            a[k] = self.subst(n.a[k], map, memo);
        }
        let r = if a == n.a {
            i
        } else if n.op == Op::Uf {
            let cs: Vec<Option<u128>> = (0..n.n as usize).map(|k| self.t.cval(a[k])).collect();
            let name = self.t.ufs[n.aux as usize].clone();
            let f = self.m.funcs.iter().position(|f| f.name == name);
            let mut r = None;
            if let (Some(f), true) = (f, cs.iter().all(|c| c.is_some())) {
                let args = cs.iter().map(|c| V::C(c.unwrap() as u64)).collect();
                if let Some(v) = self.call_concrete(f as u32, args) {
                    r = Some(self.t.cst(n.sort, v));
                }
            }
            match r {
                Some(r) => r,
                None => {
                    let nn = Node { a, ..n };
                    match self.t.map.get(&nn) {
                        Some(x) => *x,
                        None => {
                            let mut v = [0u64; W];
                            for (k, x) in v.iter_mut().enumerate() {
                                *x = self.t.col(i, k) as u64;
                            }
                            let info = self.t.info[i as usize].clone();
                            self.t.push(nn, info, Some(v))
                        }
                    }
                }
            }
        } else {
            self.t.mk(n.op, n.sort, n.aux, &a[..n.n as usize])
        };
        memo.insert(i, r);
        r
    }

    fn uf_call(&mut self, f: u32, args: &[(Ty, V)]) -> R<V> {
        let fun = &self.m.funcs[f as usize];
        let ids: Vec<Id> = args.iter().map(|(t, v)| self.tm(v, t)).collect();
        let s = sort_of(&fun.ret);
        if let Some(i) = self.t.lookup_uf(&fun.name, s, &ids) {
            return Ok(V::T(i));
        }
        // odd/even symmetry
        let (_, last) = last_ident(&fun.name);
        if ids.len() == 1 {
            let n = self.t.node(ids[0]).clone();
            if n.op == Op::FNeg {
                match last.as_str() {
                    "sin" | "sinf" | "tan" | "tanf" | "tanh" | "tanhf" | "atan" | "atanf" | "sinh" | "sinhf" | "asin" | "asinf" | "cbrt" | "cbrtf" => {
                        let a = self.vl(n.a[0]);
                        let r = self.uf_call(f, &[(args[0].0.clone(), a)])?;
                        let i = self.tm(&r, &fun.ret);
                        let x = self.t.fneg(i);
                        return Ok(self.vl(x));
                    }
                    "cos" | "cosf" | "cosh" | "coshf" => {
                        let a = self.vl(n.a[0]);
                        return self.uf_call(f, &[(args[0].0.clone(), a)]);
                    }
                    _ => {}
                }
            }
        }
        let mut vals = [0u64; W];
        for k in 0..W {
            let a: Vec<V> = ids.iter().map(|i| V::C(self.t.col(*i, k) as u64)).collect();
            vals[k] = self.call_concrete(f, a).unwrap_or(0) as u64;
        }
        let mut iv = Iv::full();
        let a0 = self.t.fiv(ids[0]);
        if a0.finite() {
            let endp = |me: &mut Exec, x: f64| -> f64 {
                let b = putf(me.t.sort(ids[0]), x);
                let r = me.call_concrete(f, vec![V::C(b as u64)]).unwrap_or(0);
                getf(s, r)
            };
            let rel = if s == Sort::F32 { 1e-6 } else { 1e-14 };
            let mono = |me: &mut Exec| -> Iv {
                let a = endp(me, a0.lo);
                let b = endp(me, a0.hi);
                if a.is_nan() || b.is_nan() {
                    return Iv::full();
                }
                let (lo, hi) = (a.min(b), a.max(b));
                Iv { lo: lo - rel * lo.abs() - 1e-300, hi: hi + rel * hi.abs() + 1e-300, nan: false }
            };
            iv = match last.as_str() {
                "sin" | "sinf" | "cos" | "cosf" => Iv::new(-1.0, 1.0),
                "tanh" | "tanhf" => {
                    let m = mono(self);
                    Iv::new(m.lo.max(-1.0), m.hi.min(1.0))
                }
                "exp" | "expf" | "exp2" | "exp2f" | "exp10" | "exp10f" | "cosh_" => {
                    let m = mono(self);
                    Iv { lo: m.lo.max(0.0), hi: m.hi, nan: m.nan }
                }
                "atan" | "atanf" | "sinh" | "sinhf" | "cbrt" | "cbrtf" | "expm1" | "expm1f" => mono(self),
                "asinh" | "asinhf" => mono(self),
                "log" | "logf" | "log2" | "log2f" | "log10" | "log10f" if a0.lo > 0.0 => mono(self),
                "log1p" | "log1pf" if a0.lo > -1.0 => mono(self),
                "pow" | "powf" => {
                    let a1 = self.t.fiv(ids[1]);
                    if a0.lo > 0.0 && a1.finite() {
                        // corners of a monotone-in-each-argument function
                        let mut lo = f64::INFINITY;
                        let mut hi = f64::NEG_INFINITY;
                        for x in [a0.lo, a0.hi] {
                            for y in [a1.lo, a1.hi] {
                                let bx = putf(self.t.sort(ids[0]), x) as u64;
                                let by = putf(self.t.sort(ids[1]), y) as u64;
                                let r = getf(s, self.call_concrete(f, vec![V::C(bx), V::C(by)]).unwrap_or(0));
                                lo = lo.min(r);
                                hi = hi.max(r);
                            }
                        }
                        if a0.lo <= 1.0 && a0.hi >= 1.0 || a1.lo <= 0.0 && a1.hi >= 0.0 {
                            lo = lo.min(1.0);
                            hi = hi.max(1.0);
                        }
                        Iv { lo: (lo - rel * lo.abs()).max(0.0), hi: hi + rel * hi.abs(), nan: lo.is_nan() || hi.is_nan() }
                    } else {
                        Iv::full()
                    }
                }
                _ => Iv::full(),
            };
        }
        if s == Sort::F32 && iv.finite() {
            iv = Iv::new((iv.lo as f32) as f64, (iv.hi as f32) as f64);
        }
        let name = fun.name.clone();
        let id = self.t.uf(&name, s, &ids, vals, Info::F(iv));
        Ok(V::T(id))
    }

    fn minmax(&mut self, ty: &Ty, a: &V, b: &V, max: bool) -> V {
        if let (Ty::Vec(_, e), V::Agg(x), V::Agg(y)) = (ty, a, b) {
            let out: Vec<V> = x.iter().zip(y.iter()).map(|(p, q)| self.minmax(e, p, q, max)).collect();
            return V::Agg(out.into());
        }
        let s = sort_of(ty);
        if let (Some(x), Some(y)) = (cbits(a), cbits(b)) {
            let (x, y) = (getf(s, x), getf(s, y));
            let r = if x.is_nan() {
                y
            } else if y.is_nan() {
                x
            } else if max {
                if x > y || (x == y && x.is_sign_positive()) {
                    x
                } else {
                    y
                }
            } else if x < y || (x == y && x.is_sign_negative()) {
                x
            } else {
                y
            };
            return V::C(putf(s, r) as u64);
        }
        let x = self.tm(a, ty);
        let y = self.tm(b, ty);
        let c = self.t.mk(Op::FLt, Sort::Bool, 0, &[x, y]);
        let mut r = if max { self.t.ite(c, y, x) } else { self.t.ite(c, x, y) };
        if self.t.fiv(y).nan {
            let n = self.t.mk(Op::FIsNan, Sort::Bool, 0, &[y]);
            r = self.t.ite(n, x, r);
        }
        if self.t.fiv(x).nan {
            let n = self.t.mk(Op::FIsNan, Sort::Bool, 0, &[x]);
            r = self.t.ite(n, y, r);
        }
        self.vl(r)
    }

    fn un(&mut self, op: Op, aux: u128, ty: &Ty, a: &V) -> V {
        if let (Ty::Vec(_, e), V::Agg(x)) = (ty, a) {
            let out: Vec<V> = x.iter().map(|p| self.un(op, aux, e, p)).collect();
            return V::Agg(out.into());
        }
        let s = sort_of(ty);
        if let Some(x) = cbits(a) {
            return V::C(fold(op, s, aux, &[s], &[x]) as u64);
        }
        let x = self.tm(a, ty);
        let r = self.t.mk(op, s, aux, &[x]);
        self.vl(r)
    }

    fn copysign(&mut self, ty: &Ty, a: &V, b: &V) -> V {
        let s = sort_of(ty);
        if let (Some(x), Some(y)) = (cbits(a), cbits(b)) {
            let sb = 1u128 << (s.bits() - 1);
            return V::C(((x & !sb) | (y & sb)) as u64);
        }
        let x = self.tm(a, ty);
        let y = self.tm(b, ty);
        let ab = self.t.mk(Op::FAbs, s, 0, &[x]);
        let z = self.t.fcst(s, 0.0);
        let c = self.t.mk(Op::FLt, Sort::Bool, 0, &[y, z]);
        let n = self.t.fneg(ab);
        let r = self.t.ite(c, n, ab);
        self.vl(r)
    }

    fn panic_msg(&self, st: &State, name: &str, args: &[(Ty, V)]) -> String {
        let (_, last) = last_ident(name);
        let mut msg = format!("panic in {}", if last.is_empty() { name } else { &last });
        let rd = |a: u64, n: usize| -> Option<Vec<u8>> {
            let (i, o) = st.mem.locate(a, n as u64, false).ok()?;
            Some(st.mem.objs[i].data[o..o + n].to_vec())
        };
        let u = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
        // message for str panics
        if args.len() >= 2 {
            if let (V::C(p), V::C(n)) = (&args[0].1, &args[1].1) {
                if *n < 300 && *p > 0xffff_ffff && matches!(args[0].0, Ty::Ptr) && matches!(args[1].0, Ty::Int(64)) {
                    if let Some(b) = rd(*p, *n as usize) {
                        if let Ok(s) = String::from_utf8(b) {
                            msg = format!("{}: {}", msg, s);
                        }
                    }
                }
            }
        }
        for (t, v) in args.iter().rev() {
            if let (Ty::Ptr, V::C(p)) = (t, v) {
                if let Some(b) = rd(*p, 24) {
                    let (fp, fl) = (u(&b), u(&b[8..]));
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    if fl > 0 && fl < 400 {
                        if let Some(f) = rd(fp, fl as usize) {
                            if let Ok(s) = String::from_utf8(f) {
                                let s = s.trim_end_matches('\0').to_string();
                                msg = format!("{} at {}:{}", msg, s, line);
                            }
                        }
                    }
                }
                break;
            }
        }
        msg
    }

    fn str_arg(&self, st: &State, p: &V, n: &V) -> String {
        if let (V::C(p), V::C(n)) = (p, n) {
            if let Ok((i, o)) = st.mem.locate(*p, *n, false) {
                return String::from_utf8_lossy(&st.mem.objs[i].data[o..o + *n as usize]).into_owned();
            }
        }
        "?".into()
    }

    fn new_var(&mut self, st: &mut State, sort: Sort, lo: u64, hi: u64) -> V {
        let k = st.inputs.len();
        let key = (k, sort, lo, hi);
        let id = match self.varmap.get(&key) {
            Some(i) => *i,
            None => {
                let i = match sort {
                    Sort::F32 => self.t.fvar(sort, f32::from_bits(lo as u32) as f64, f32::from_bits(hi as u32) as f64),
                    Sort::F64 => self.t.fvar(sort, f64::from_bits(lo), f64::from_bits(hi)),
                    _ => self.t.bvar(64, lo, hi),
                };
                self.varmap.insert(key, i);
                i
            }
        };
        Rc::make_mut(&mut st.inputs).push(Input::Term(id));
        if let Some(c) = self.concrete {
            return V::C(self.t.col(id, (c % W as u64) as usize) as u64);
        }
        V::T(id)
    }

    fn oblige(&mut self, st: &State, kind: Kind, msg: String) {
        self.obligs.push(Oblig { kind, msg, pc: st.pc.clone(), mask: st.mask, wits: st.wits.clone(), inputs: st.inputs.clone() });
    }

    /// Executes an external/intercepted call. Ok(None) => nothing to write.
    fn ext_call(&mut self, st: &mut State, f: u32, e: Ext, rt: &Ty, args: &[(Ty, V)], ops: &[(Ty, Opd)]) -> R<Option<V>> {
        let m = self.m;
        let fun = &m.funcs[f as usize];
        let c = |k: usize| -> R<u64> {
            match &args[k].1 {
                V::C(x) => Ok(*x),
                V::T(i) => Err(Stop::Concretise(ops[k].1.clone(), *i)),
                _ => Err(Stop::Unsupported("wide arg".into())),
            }
        };
        match e {
            Ext::Nop => Ok(None),
            Ext::Alloc | Ext::AllocZeroed => {
                let n = c(0)?;
                if n > (1 << 31) {
                    return Err(Stop::Fault(format!("allocation of {} bytes", n)));
                }
                if st.noalloc {
                    self.oblige(st, Kind::Fault, "heap operation during real-time processing".into());
                    return Err(Stop::Done);
                }
                Ok(Some(V::C(st.mem.alloc(n, if e == Ext::Alloc { 0x5A } else { 0 }, true))))
            }
            Ext::Realloc => {
                if st.noalloc {
                    self.oblige(st, Kind::Fault, "heap operation during real-time processing".into());
                    return Err(Stop::Done);
                }
                let p = c(0)?;
                let old = c(1)?;
                let n = c(3)?;
                if n > (1 << 31) {
                    return Err(Stop::Fault(format!("allocation of {} bytes", n)));
                }
                let q = st.mem.alloc(n, 0x5A, true);
                self.memcpy(st, q, p, old.min(n))?;
                let (i, _) = st.mem.locate(p, 0, false)?;
                let o = Rc::make_mut(&mut st.mem.objs[i]);
                o.alive = false;
                o.data = vec![];
                o.tag = None;
                Ok(Some(V::C(q)))
            }
            Ext::Dealloc => {
                if st.noalloc {
                    self.oblige(st, Kind::Fault, "heap operation during real-time processing".into());
                    return Err(Stop::Done);
                }
                let p = c(0)?;
                let (i, off) = match st.mem.locate(p, 0, false) {
                    Ok(x) => x,
                    Err(_) => return Err(Stop::Fault("double free or bad free".into())),
                };
                if off != 0 || !st.mem.objs[i].heap {
                    return Err(Stop::Fault("bad free".into()));
                }
                st.mem.objs[i] = Rc::new(Obj { data: vec![], tag: None, alive: false, ro: false, heap: true });
                Ok(None)
            }
            Ext::Panic => {
                let s = self.panic_msg(st, &fun.name, args);
                Err(Stop::Fault(s))
            }
            Ext::Exact(op, aux) => Ok(Some(self.un(op, aux as u128, &args[0].0.clone(), &args[0].1))),
            Ext::FMin => Ok(Some(self.minmax(&args[0].0.clone(), &args[0].1, &args[1].1, false))),
            Ext::FMax => Ok(Some(self.minmax(&args[0].0.clone(), &args[0].1, &args[1].1, true))),
            Ext::CopySign => Ok(Some(self.copysign(&args[0].0.clone(), &args[0].1, &args[1].1))),
            Ext::FmaF => Err(Stop::Unsupported("fma".into())),
            Ext::Uf => self.uf_call(f, args).map(Some),
            Ext::Vp(k) => self.vp(st, k, args, ops).map(Some),
            Ext::Intr => self.intrinsic(st, &fun.name, rt, args, ops),
            Ext::Unknown => Err(Stop::Unsupported(format!("extern {}", fun.name))),
            Ext::Defined => unreachable!(),
        }
    }

    fn vp(&mut self, st: &mut State, k: u8, args: &[(Ty, V)], _ops: &[(Ty, Opd)]) -> R<V> {
        let c = |k: usize| -> u64 {
            match &args[k].1 {
                V::C(x) => *x,
                _ => panic!("symbolic vp arg"),
            }
        };
        match k {
            0 => Ok(self.new_var(st, Sort::F32, c(0), c(1))),
            1 => Ok(self.new_var(st, Sort::F64, c(0), c(1))),
            2 => Ok(self.new_var(st, Sort::Bv(64), c(0), c(1))),
            3 => {
                let n = c(0);
                if let Some(col) = self.concrete {
                    let mut h = col.wrapping_mul(0x9E3779B97F4A7C15) ^ (st.inputs.len() as u64 + 1).wrapping_mul(0xD1B54A32D192ED03);
                    h ^= h >> 29;
                    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
                    h ^= h >> 32;
                    let v = h % n;
                    Rc::make_mut(&mut st.inputs).push(Input::Choice(v, n));
                    return Ok(V::C(v));
                }
                if n == 0 {
                    return Err(Stop::Infeasible);
                }
                // fork: this state takes 0, clones take the rest
                for v in (1..n).rev() {
                    let mut s2 = st.clone();
                    Rc::make_mut(&mut s2.inputs).push(Input::Choice(v, n));
                    let dst = {
                        let fr = s2.frames.last().unwrap();
                        let b = &self.m.funcs[fr.f as usize].blocks[fr.block as usize];
                        b.ins[fr.ip as usize].0
                    };
                    let fr = s2.frames.last_mut().unwrap();
                    if dst != NONE {
                        fr.regs[dst as usize] = V::C(v);
                    }
                    fr.ip += 1;
                    s2.forks += 1;
                    self.forks += 1;
                    self.work.push(s2);
                }
                Rc::make_mut(&mut st.inputs).push(Input::Choice(0, n));
                Ok(V::C(0))
            }
            4 => match &args[0].1 {
                V::C(0) => Err(Stop::Infeasible),
                V::C(_) => Ok(V::C(0)),
                V::T(i) => match self.restrict(st, *i) {
                    Some(s) => {
                        *st = s;
                        Ok(V::C(0))
                    }
                    None => Err(Stop::Infeasible),
                },
                _ => Err(Stop::Unsupported("assume".into())),
            },
            5 => {
                let msg = self.str_arg(st, &args[1].1, &args[2].1);
                st.checks += 1;
                if self.concrete.is_some() {
                    if let V::C(x) = args[0].1 {
                        st.trace.push(x);
                    }
                }
                let i = self.tm(&args[0].1, &Ty::Int(1));
                self.oblige(st, Kind::Check(i), msg);
                Ok(V::C(0))
            }
            6 => {
                let msg = self.str_arg(st, &args[4].1, &args[5].1);
                st.checks += 1;
                if self.concrete.is_some() {
                    if let (V::C(x), V::C(y)) = (&args[0].1, &args[1].1) {
                        st.trace.push(*x);
                        st.trace.push(*y);
                    }
                }
                let a = self.tm(&args[0].1, &Ty::F64);
                let b = self.tm(&args[1].1, &Ty::F64);
                self.oblige(st, Kind::Close(a, b, f64::from_bits(c(2)), f64::from_bits(c(3))), msg);
                Ok(V::C(0))
            }
            7 | 11 => {
                let ty = if k == 7 { Ty::F32 } else { Ty::F64 };
                let msg = self.str_arg(st, &args[2].1, &args[3].1);
                st.checks += 1;
                if self.concrete.is_some() {
                    if let (V::C(x), V::C(y)) = (&args[0].1, &args[1].1) {
                        st.trace.push(*x);
                        st.trace.push(*y);
                    }
                }
                let a = self.tm(&args[0].1, &ty);
                let b = self.tm(&args[1].1, &ty);
                let e = self.t.mk(Op::FEq, Sort::Bool, 0, &[a, b]);
                // two NaNs count as equal
                let r = if self.t.cval(e) == Some(1) {
                    e
                } else if a == b {
                    self.t.bool(true)
                } else {
                    let n1 = self.t.mk(Op::FIsNan, Sort::Bool, 0, &[a]);
                    let n2 = self.t.mk(Op::FIsNan, Sort::Bool, 0, &[b]);
                    let n = self.t.and(n1, n2);
                    self.t.or(e, n)
                };
                self.oblige(st, Kind::Check(r), msg);
                Ok(V::C(0))
            }
            8 => {
                if self.concrete.is_some() {
                    if let V::C(x) = args[0].1 {
                        st.trace.push(x);
                    }
                }
                Ok(V::C(0))
            }
            9 => {
                st.noalloc = c(0) != 0;
                Ok(V::C(0))
            }
            10 => {
                let msg = self.str_arg(st, &args[0].1, &args[1].1);
                if st.certain {
                    *self.reach.entry(msg).or_insert(0) += 1;
                }
                Ok(V::C(0))
            }
            12 => {
                // is the value concrete? (debug aid)
                Ok(V::C(matches!(args[0].1, V::C(_)) as u64))
            }
            _ => Err(Stop::Unsupported("vp".into())),
        }
    }

    fn lanes1(&mut self, ty: &Ty, a: &V, mut f: impl FnMut(&mut Exec, &Ty, &V) -> R<V>) -> R<V> {
        match (ty, a) {
            (Ty::Vec(_, e), V::Agg(x)) => {
                let mut out = Vec::with_capacity(x.len());
                for p in x.iter() {
                    out.push(f(self, e, p)?);
                }
                Ok(V::Agg(out.into()))
            }
            _ => f(self, ty, a),
        }
    }
    fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, mut f: impl FnMut(&mut Exec, &Ty, &V, &V) -> R<V>) -> R<V> {
        match (ty, a, b) {
            (Ty::Vec(_, e), V::Agg(x), V::Agg(y)) => {
                let mut out = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    out.push(f(self, e, p, q)?);
                }
                Ok(V::Agg(out.into()))
            }
            _ => f(self, ty, a, b),
        }
    }

    fn sel(&mut self, c: &V, ty: &Ty, a: &V, b: &V) -> R<V> {
        match c {
            V::C(x) => Ok(if *x & 1 != 0 { a.clone() } else { b.clone() }),
            V::T(i) => match (ty, a, b) {
                (Ty::Vec(_, e), V::Agg(x), V::Agg(y)) => {
                    let mut out = vec![];
                    for k in 0..x.len() {
                        out.push(self.sel(c, e, &x[k], &y[k])?);
                    }
                    Ok(V::Agg(out.into()))
                }
                (Ty::Struct(f, _), V::Agg(x), V::Agg(y)) => {
                    let mut out = vec![];
                    for k in 0..x.len() {
                        out.push(self.sel(c, &f[k], &x[k], &y[k])?);
                    }
                    Ok(V::Agg(out.into()))
                }
                _ => {
                    let x = self.tm(a, ty);
                    let y = self.tm(b, ty);
                    let r = self.t.ite(*i, x, y);
                    Ok(self.vl(r))
                }
            },
            _ => Err(Stop::Unsupported("select cond".into())),
        }
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, rt: &Ty, args: &[(Ty, V)], ops: &[(Ty, Opd)]) -> R<Option<V>> {
        let c = |k: usize| -> R<u64> {
            match &args[k].1 {
                V::C(x) => Ok(*x),
                V::T(i) => Err(Stop::Concretise(ops[k].1.clone(), *i)),
                _ => Err(Stop::Unsupported("wide arg".into())),
            }
        };
        let base = name.strip_prefix("llvm.").unwrap_or(name);
        if base.starts_with("lifetime")
            || base.starts_with("experimental.noalias")
            || base.starts_with("dbg")
            || base.starts_with("invariant")
            || base.starts_with("prefetch")
            || base == "x86.sse2.pause"
            || base == "donothing"
            || base == "sideeffect"
        {
            return Ok(None);
        }
        if base.starts_with("assume") {
            return Ok(None);
        }
        if base.starts_with("expect") || base.starts_with("freeze") || base.starts_with("launder") || base.starts_with("strip") || base.starts_with("threadlocal.address") {
            return Ok(Some(args[0].1.clone()));
        }
        if base.starts_with("is.fpclass") {
            let m = c(1)?;
            let srt = sort_of(&args[0].0);
            if let Some(x) = cbits(&args[0].1) {
                let neg = x >> (srt.bits() - 1) & 1 == 1;
                let v = getf(srt, x);
                let min = if srt == Sort::F32 { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
                let k = if v.is_nan() {
                    3
                } else if v.is_infinite() {
                    if neg { 4 } else { 0x200 }
                } else if v == 0.0 {
                    if neg { 0x20 } else { 0x40 }
                } else if v.abs() < min {
                    if neg { 0x10 } else { 0x80 }
                } else if neg {
                    8
                } else {
                    0x100
                };
                return Ok(Some(V::C((m & k != 0) as u64)));
            }
            let x = self.tm(&args[0].1, &args[0].0);
            let r = match m {
                0x40 | 0x60 => {
                    let z = self.t.cst(srt, 0);
                    self.t.mk(Op::FEq, Sort::Bool, 0, &[x, z])
                }
                3 => self.t.mk(Op::FIsNan, Sort::Bool, 0, &[x]),
                _ => return Err(Stop::Unsupported(format!("is.fpclass {:x}", m))),
            };
            return Ok(Some(self.vl(r)));
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let n = c(2)?;
            if n == 0 {
                return Ok(Some(args[0].1.clone()));
            }
            let (d, s) = (c(0)?, c(1)?);
            self.memcpy(st, d, s, n)?;
            return Ok(Some(V::C(d)));
        }
        if base.starts_with("memset") {
            let n = c(2)?;
            if n == 0 {
                return Ok(Some(args[0].1.clone()));
            }
            let d = c(0)?;
            match &args[1].1 {
                V::C(v) => {
                    let (i, o) = st.mem.locate(d, n, true)?;
                    let ob = Rc::make_mut(&mut st.mem.objs[i]);
                    for q in &mut ob.data[o..o + n as usize] {
                        *q = *v as u8;
                    }
                    if let Some(t) = &mut ob.tag {
                        for q in &mut t[o..o + n as usize] {
                            *q = 0;
                        }
                    }
                }
                v => {
                    for k in 0..n {
                        self.store_scalar(st, d + k, &Ty::Int(8), v)?;
                    }
                }
            }
            return Ok(Some(V::C(d)));
        }
        if base == "memcmp" || base == "bcmp" {
            let n = c(2)?;
            if n == 0 {
                return Ok(Some(V::C(0)));
            }
            let (p, q) = (c(0)?, c(1)?);
            let mut acc = self.t.bool(true);
            let mut res: u64 = 0;
            let mut symb = false;
            for k in 0..n {
                let a = self.load_scalar(st, p + k, &Ty::Int(8))?;
                let b = self.load_scalar(st, q + k, &Ty::Int(8))?;
                match (&a, &b) {
                    (V::C(x), V::C(y)) => {
                        if x != y && res == 0 {
                            res = if x < y { 0xffff_ffff } else { 1 };
                        }
                        if x != y {
                            acc = self.t.bool(false);
                        }
                    }
                    _ => {
                        symb = true;
                        let x = self.tm(&a, &Ty::Int(8));
                        let y = self.tm(&b, &Ty::Int(8));
                        let e = self.t.eq(x, y);
                        acc = self.t.and(acc, e);
                    }
                }
            }
            if !symb {
                return Ok(Some(V::C(res)));
            }
            if base == "memcmp" {
                // only (in)equality is modelled
                self.incomplete.push("symbolic memcmp ordering".into());
            }
            let z = self.t.cst(Sort::Bv(32), 0);
            let o = self.t.cst(Sort::Bv(32), 1);
            let r = self.t.ite(acc, z, o);
            return Ok(Some(self.vl(r)));
        }
        let kind: &str = base.split('.').next().unwrap();
        let at = args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let fop = |op: Op, aux: u128| (op, aux);
        let un = match kind {
            "fabs" => Some(fop(Op::FAbs, 0)),
            "sqrt" => Some(fop(Op::FSqrt, 0)),
            "floor" => Some(fop(Op::FRnd, 0)),
            "ceil" => Some(fop(Op::FRnd, 1)),
            "trunc" => Some(fop(Op::FRnd, 2)),
            "rint" | "nearbyint" | "roundeven" => Some(fop(Op::FRnd, 3)),
            "round" => Some(fop(Op::FRnd, 4)),
            _ => None,
        };
        if let Some((op, aux)) = un {
            return Ok(Some(self.un(op, aux, &at, &args[0].1)));
        }
        match kind {
            "minimumnum" | "minnum" | "minimum" => return Ok(Some(self.minmax(&at, &args[0].1, &args[1].1, false))),
            "maximumnum" | "maxnum" | "maximum" => return Ok(Some(self.minmax(&at, &args[0].1, &args[1].1, true))),
            "copysign" => {
                return self
                    .lanes2(&at, &args[0].1, &args[1].1, |me, t, a, b| Ok(me.copysign(t, a, b)))
                    .map(Some)
            }
            "fma" | "fmuladd" => {
                if kind == "fmuladd" {
                    return Err(Stop::Unsupported("fmuladd".into()));
                }
                let s = sort_of(&at);
                if let (Some(x), Some(y), Some(z)) = (cbits(&args[0].1), cbits(&args[1].1), cbits(&args[2].1)) {
                    return Ok(Some(V::C(fold(Op::Fma, s, 0, &[s, s, s], &[x, y, z]) as u64)));
                }
                let x = self.tm(&args[0].1, &at);
                let y = self.tm(&args[1].1, &at);
                let z = self.tm(&args[2].1, &at);
                let r = self.t.mk(Op::Fma, s, 0, &[x, y, z]);
                return Ok(Some(self.vl(r)));
            }
            "fptoui" | "fptosi" => {
                let cst = if kind == "fptoui" { Cast::FpToUi } else { Cast::FpToSi };
                return self.cast(cst, &at, rt, &args[0].1).map(Some);
            }
            "umin" | "umax" | "smin" | "smax" => {
                let k = kind.to_string();
                return self
                    .lanes2(&at, &args[0].1, &args[1].1, |me, t, a, b| {
                        let p = match k.as_str() {
                            "umin" => IP::Ult,
                            "umax" => IP::Ugt,
                            "smin" => IP::Slt,
                            _ => IP::Sgt,
                        };
                        let cnd = me.icmp1(p, t, a, b);
                        me.sel(&cnd, t, a, b)
                    })
                    .map(Some);
            }
            "abs" => {
                return self
                    .lanes1(&at, &args[0].1, |me, t, a| {
                        let z = V::C(0);
                        let n = me.bin1(Bin::Sub, t, &z, a)?;
                        let cnd = me.icmp1(IP::Slt, t, a, &z);
                        me.sel(&cnd, t, &n, a)
                    })
                    .map(Some)
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let k = kind.to_string();
                let me_ops = ops[0].1.clone();
                return self
                    .lanes1(&at, &args[0].1, |me, t, a| {
                        let n = t.bits();
                        match cbits(a) {
                            Some(x) => {
                                let r: u128 = match k.as_str() {
                                    "ctlz" => {
                                        if x == 0 {
                                            n as u128
                                        } else {
                                            (x.leading_zeros() - (128 - n)) as u128
                                        }
                                    }
                                    "cttz" => {
                                        if x == 0 {
                                            n as u128
                                        } else {
                                            x.trailing_zeros() as u128
                                        }
                                    }
                                    "ctpop" => x.count_ones() as u128,
                                    "bswap" => x.swap_bytes() >> (128 - n),
                                    _ => x.reverse_bits() >> (128 - n),
                                };
                                Ok(mkint(n, r))
                            }
                            None => match a {
                                V::T(i) if k == "ctpop" && n <= 64 => {
                                    let ts = &mut me.t;
                                    let mut sum = ts.cst(Sort::Bv(n as u8), 0);
                                    for j in 0..n {
                                        let b = ts.mk(Op::Extract, Sort::Bv(1), j as u128, &[*i]);
                                        let z = ts.mk(Op::ZExt, Sort::Bv(n as u8), 0, &[b]);
                                        sum = ts.mk(Op::Add, Sort::Bv(n as u8), 0, &[sum, z]);
                                    }
                                    Ok(me.vl(sum))
                                }
                                V::T(i) => Err(Stop::Concretise(me_ops.clone(), *i)),
                                _ => Err(Stop::Unsupported("bitcount".into())),
                            },
                        }
                    })
                    .map(Some);
            }
            "fshl" | "fshr" => {
                let n = at.bits();
                let sh = (c(2)? as u32) % n;
                let sh = if kind == "fshl" { sh } else { (n - sh) % n };
                // fshl(a,b,s): (a<<s)|(b>>(n-s)); fshr(a,b,s) == fshl(a,b,n-s) except s==0 gives b
                if kind == "fshr" && sh == 0 {
                    return Ok(Some(args[1].1.clone()));
                }
                if sh == 0 {
                    return Ok(Some(args[0].1.clone()));
                }
                let k1 = V::C(sh as u64);
                let k2 = V::C((n - sh) as u64);
                let hi = self.bin1(Bin::Shl, &at, &args[0].1, &k1)?;
                let lo = self.bin1(Bin::LShr, &at, &args[1].1, &k2)?;
                return self.bin1(Bin::Or, &at, &hi, &lo).map(Some);
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let n = at.bits();
                let op = match &kind[1..] {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    _ => Bin::Mul,
                };
                let sat = base.contains(".sat.");
                let signed = kind.starts_with('s');
                if let Ty::Vec(..) = at {
                    if sat {
                        let sg = signed;
                        return self
                            .lanes2(&at, &args[0].1, &args[1].1, |_m, t, a, b| {
                                let n = t.bits();
                                match (cbits(a), cbits(b)) {
                                    (Some(x), Some(y)) => Ok(mkint(n, sat_op(op, sg, n, x, y))),
                                    _ => Err(Stop::Unsupported("sym vec sat".into())),
                                }
                            })
                            .map(Some);
                    }
                }
                if let (Some(x), Some(y)) = (cbits(&args[0].1), cbits(&args[1].1)) {
                    if sat {
                        return Ok(Some(mkint(n, sat_op(op, signed, n, x, y))));
                    }
                    let (r, o) = if signed {
                        let (a, b) = (sext(x, n), sext(y, n));
                        let r = match op {
                            Bin::Add => a.checked_add(b),
                            Bin::Sub => a.checked_sub(b),
                            _ => a.checked_mul(b),
                        };
                        match r {
                            Some(r) => (r as u128, sext(r as u128 & mask(n), n) != r),
                            None => (0, true),
                        }
                    } else {
                        match op {
                            Bin::Add => (x.wrapping_add(y), x.checked_add(y).map(|r| r > mask(n)).unwrap_or(true)),
                            Bin::Sub => (x.wrapping_sub(y), y > x),
                            _ => (x.wrapping_mul(y), x.checked_mul(y).map(|r| r > mask(n)).unwrap_or(true)),
                        }
                    };
                    return Ok(Some(V::Agg(vec![mkint(n, r), V::C(o as u64)].into())));
                }
                let r = self.bin1(op, &at, &args[0].1, &args[1].1)?;
                let x = self.tm(&args[0].1, &at);
                let y = self.tm(&args[1].1, &at);
                let ri = self.tm(&r, &at);
                let ov = if !signed {
                    match op {
                        Bin::Add => self.t.mk(Op::Ult, Sort::Bool, 0, &[ri, x]),
                        Bin::Sub => self.t.mk(Op::Ult, Sort::Bool, 0, &[x, y]),
                        _ => {
                            if n > 64 {
                                return Err(Stop::Unsupported("wide umul overflow".into()));
                            }
                            let (_, h1) = self.t.biv(x);
                            let (_, h2) = self.t.biv(y);
                            if (h1 as u128) * (h2 as u128) <= mask(n) {
                                self.t.bool(false)
                            } else {
                                let w = Sort::Bv(2 * n as u8);
                                let a = self.t.mk(Op::ZExt, w, 0, &[x]);
                                let b = self.t.mk(Op::ZExt, w, 0, &[y]);
                                let p = self.t.mk(Op::Mul, w, 0, &[a, b]);
                                let lim = self.t.cst(w, mask(n));
                                self.t.mk(Op::Ult, Sort::Bool, 0, &[lim, p])
                            }
                        }
                    }
                } else {
                    let w = Sort::Bv((2 * n).min(128) as u8);
                    let o = match op {
                        Bin::Add => Op::Add,
                        Bin::Sub => Op::Sub,
                        _ => Op::Mul,
                    };
                    let a = self.t.mk(Op::SExt, w, 0, &[x]);
                    let b = self.t.mk(Op::SExt, w, 0, &[y]);
                    let p = self.t.mk(o, w, 0, &[a, b]);
                    let q = self.t.mk(Op::SExt, w, 0, &[ri]);
                    let e = self.t.eq(p, q);
                    self.t.not(e)
                };
                if sat {
                    let ov = self.vl(ov);
                    if signed {
                        return Err(Stop::Unsupported("signed sat".into()));
                    }
                    let lim = mkint(n, if op == Bin::Sub { 0 } else { mask(n) });
                    return self.sel(&ov, &at, &lim, &r).map(Some);
                }
                let ov = self.vl(ov);
                return Ok(Some(V::Agg(vec![r, ov].into())));
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if kind == "ucmp" { (IP::Ult, IP::Ugt) } else { (IP::Slt, IP::Sgt) };
                let l = self.icmp1(lt, &at, &args[0].1, &args[1].1);
                let g = self.icmp1(gt, &at, &args[0].1, &args[1].1);
                let n = rt.bits();
                let one = mkint(n, 1);
                let zero = mkint(n, 0);
                let m1 = mkint(n, mask(n));
                let r = self.sel(&g, rt, &one, &zero)?;
                return self.sel(&l, rt, &m1, &r).map(Some);
            }
            "is" if base.starts_with("is.fpclass") => {
                let m = c(1)?;
                let s = sort_of(&at);
                if let Some(x) = cbits(&args[0].1) {
                    let f = getf(s, x);
                    let sub = if s == Sort::F32 { f32b(x).is_subnormal() } else { f.is_subnormal() };
                    let neg = f.is_sign_negative();
                    let cl = if f.is_nan() {
                        3
                    } else if f.is_infinite() {
                        if neg {
                            4
                        } else {
                            512
                        }
                    } else if f == 0.0 {
                        if neg {
                            32
                        } else {
                            64
                        }
                    } else if sub {
                        if neg {
                            16
                        } else {
                            128
                        }
                    } else if neg {
                        8
                    } else {
                        256
                    };
                    return Ok(Some(V::C((cl & m != 0) as u64)));
                }
                let x = self.tm(&args[0].1, &at);
                let iv = self.t.fiv(x);
                if iv.finite() && (m == 504 || m == 3 || m == 516 || m == 519) {
                    // finite / nan / inf / nan|inf
                    return Ok(Some(V::C((m == 504) as u64)));
                }
                if m == 3 {
                    let r = self.t.mk(Op::FIsNan, Sort::Bool, 0, &[x]);
                    return Ok(Some(self.vl(r)));
                }
                if m == 252 || m == 60 {
                    let z = self.t.fcst(s, 0.0);
                    let r = self.t.mk(Op::FLt, Sort::Bool, 0, &[x, z]);
                    return Ok(Some(self.vl(r)));
                }
                return Err(Stop::Unsupported(format!("is.fpclass {}", m)));
            }
            "vector" => {
                // vector.reduce.*
                let parts: Vec<&str> = base.split('.').collect();
                if parts.len() >= 3 && parts[1] == "reduce" {
                    let (vt, vv, mut acc): (Ty, V, Option<V>) = if parts[2] == "fadd" || parts[2] == "fmul" {
                        (args[1].0.clone(), args[1].1.clone(), Some(args[0].1.clone()))
                    } else {
                        (args[0].0.clone(), args[0].1.clone(), None)
                    };
                    let e = vt.scalar();
                    if let V::Agg(l) = vv {
                        for x in l.iter() {
                            acc = Some(match acc {
                                None => x.clone(),
                                Some(a) => match parts[2] {
                                    "add" => self.bin1(Bin::Add, &e, &a, x)?,
                                    "mul" => self.bin1(Bin::Mul, &e, &a, x)?,
                                    "and" => self.bin1(Bin::And, &e, &a, x)?,
                                    "or" => self.bin1(Bin::Or, &e, &a, x)?,
                                    "xor" => self.bin1(Bin::Xor, &e, &a, x)?,
                                    "fadd" => self.bin1(Bin::FAdd, &e, &a, x)?,
                                    "fmul" => self.bin1(Bin::FMul, &e, &a, x)?,
                                    "fmin" => self.minmax(&e, &a, x, false),
                                    "fmax" => self.minmax(&e, &a, x, true),
                                    "umax" | "umin" | "smax" | "smin" => {
                                        let p = match parts[2] {
                                            "umin" => IP::Ult,
                                            "umax" => IP::Ugt,
                                            "smin" => IP::Slt,
                                            _ => IP::Sgt,
                                        };
                                        let cnd = self.icmp1(p, &e, &a, x);
                                        self.sel(&cnd, &e, &a, x)?
                                    }
                                    o => return Err(Stop::Unsupported(format!("reduce {}", o))),
                                },
                            });
                        }
                    }
                    return Ok(acc);
                }
            }
            "x86" => {
                let nm = base;
                if nm.ends_with("ldmxcsr") {
                    // flush-to-zero control; denormals are treated exactly (stated assumption)
                    return Ok(None);
                }
                if nm.ends_with("stmxcsr") {
                    let p = c(0)?;
                    self.store(st, p, &Ty::Int(32), &V::C(0x1f80))?;
                    return Ok(None);
                }
                if nm.ends_with("min.ps") || nm.ends_with("min.pd") || nm.ends_with("max.ps") || nm.ends_with("max.pd") {
                    let mx = nm.contains("max");
                    return self
                        .lanes2(&at, &args[0].1, &args[1].1, |me, t, a, b| {
                            let cnd = if mx { me.fcmp1(FP::Ogt, t, a, b) } else { me.fcmp1(FP::Olt, t, a, b) };
                            me.sel(&cnd, t, a, b)
                        })
                        .map(Some);
                }
                if nm.ends_with("cvtps2dq") {
                    return self
                        .lanes1(&at, &args[0].1, |me, t, a| {
                            let r = me.un(Op::FRnd, 3, t, a);
                            me.cast1(Cast::FpToSi, t, &Ty::Int(32), &r)
                        })
                        .map(Some);
                }
                if nm.ends_with("cvttps2dq") {
                    return self.lanes1(&at, &args[0].1, |me, t, a| me.cast1(Cast::FpToSi, t, &Ty::Int(32), a)).map(Some);
                }
                if nm.contains("movmsk") || nm.contains("pmovmskb") {
                    if let V::Agg(l) = &args[0].1 {
                        let e = at.scalar();
                        let eb = e.bits();
                        let ie = Ty::Int(eb);
                        let mut acc = V::C(0);
                        for (k, x) in l.iter().enumerate() {
                            let b = self.cast1(Cast::Bitcast, &e, &ie, x)?;
                            let neg = self.icmp1(IP::Slt, &ie, &b, &V::C(0));
                            let one = V::C(1 << k);
                            let zero = V::C(0);
                            let p = self.sel(&neg, &Ty::Int(32), &one, &zero)?;
                            acc = self.bin1(Bin::Or, &Ty::Int(32), &acc, &p)?;
                        }
                        return Ok(Some(acc));
                    }
                }
                if nm.contains("cmp.ps") || nm.contains("cmp.pd") {
                    let imm = c(2)?;
                    return self
                        .lanes2(&at, &args[0].1, &args[1].1, |me, t, a, b| {
                            let p = match imm & 7 {
                                0 => FP::Oeq,
                                1 => FP::Olt,
                                2 => FP::Ole,
                                3 => FP::Uno,
                                4 => FP::Une,
                                5 => FP::Uge,
                                6 => FP::Ugt,
                                _ => FP::Ord,
                            };
                            let cnd = me.fcmp1(p, t, a, b);
                            let n = t.bits();
                            let o = V::C(smask(n));
                            let z = V::C(0);
                            let it = Ty::Int(n);
                            let r = me.sel(&cnd, &it, &o, &z)?;
                            me.cast1(Cast::Bitcast, &it, t, &r)
                        })
                        .map(Some);
                }
            }
            _ => {}
        }
        if base == "fmodf" || base == "fmod" {
            return self.bin1(Bin::FRem, &at, &args[0].1, &args[1].1).map(Some);
        }
        Err(Stop::Unsupported(format!("intrinsic {}", name)))
    }

    // ---------------------------------------------------------------- stepping

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let b = &self.m.funcs[fr.f as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                for (l, o) in inc {
                    if *l == from {
                        vals.push((*d, Self::get(fr, o)));
                        break;
                    }
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }

    /// Executes one instruction. Ok(Some(v)) => outermost return.
    pub fn step(&mut self, st: &mut State) -> R<Option<V>> {
        let m = self.m;
        st.steps += 1;
        self.steps += 1;
        let fi = st.frames.len() - 1;
        let (dst, ins) = {
            let fr = &st.frames[fi];
            let (d, i) = &m.funcs[fr.f as usize].blocks[fr.block as usize].ins[fr.ip as usize];
            (*d, i)
        };
        macro_rules! g {
            ($o:expr) => {
                Self::get(&st.frames[fi], $o)
            };
        }
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                let fr = &mut st.frames[fi];
                fr.regs[dst as usize] = v;
                fr.ip += 1;
                return Ok(None);
            }};
        }
        match ins {
            Ins::Bin(op, ty, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let r = match ty {
                    Ty::Vec(..) => self.lanes2(ty, &x, &y, |me, t, p, q| me.bin_s(*op, t, p, q))?,
                    _ => self.bin_s(*op, ty, &x, &y)?,
                };
                set!(r)
            }
            Ins::FNeg(ty, a) => {
                let x = g!(a);
                let r = self.un(Op::FNeg, 0, ty, &x);
                set!(r)
            }
            Ins::ICmp(p, ty, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let r = match ty {
                    Ty::Vec(..) => self.lanes2(ty, &x, &y, |me, t, u, v| Ok(me.icmp1(*p, t, u, v)))?,
                    _ => self.icmp1(*p, ty, &x, &y),
                };
                set!(r)
            }
            Ins::FCmp(p, ty, a, b) => {
                let (x, y) = (g!(a), g!(b));
                let r = match ty {
                    Ty::Vec(..) => self.lanes2(ty, &x, &y, |me, t, u, v| Ok(me.fcmp1(*p, t, u, v)))?,
                    _ => self.fcmp1(*p, ty, &x, &y),
                };
                set!(r)
            }
            Ins::Cast(c, from, to, a) => {
                let x = g!(a);
                let r = self.cast(*c, from, to, &x)?;
                set!(r)
            }
            Ins::Select(ct, ty, c, a, b) => {
                let (cv, x, y) = (g!(c), g!(a), g!(b));
                let r = match (ct, &cv, ty, &x, &y) {
                    (Ty::Vec(..), V::Agg(cs), Ty::Vec(_, e), V::Agg(p), V::Agg(q)) => {
                        let mut out = vec![];
                        for k in 0..cs.len() {
                            out.push(self.sel(&cs[k], e, &p[k], &q[k])?);
                        }
                        V::Agg(out.into())
                    }
                    _ => self.sel(&cv, ty, &x, &y)?,
                };
                set!(r)
            }
            Ins::Gep(b, off, rest) => {
                let bv = g!(b);
                let mut acc = match &bv {
                    V::C(x) => V::C(x.wrapping_add(*off as u64)),
                    v => self.bin1(Bin::Add, &Ty::Int(64), v, &V::C(*off as u64))?,
                };
                for (o, bits, scale) in rest {
                    let iv = g!(o);
                    let iv = if *bits < 64 { self.cast1(Cast::SExt, &Ty::Int(*bits), &Ty::Int(64), &iv)? } else { iv };
                    let p = self.bin1(Bin::Mul, &Ty::Int(64), &iv, &V::C(*scale as u64))?;
                    acc = self.bin1(Bin::Add, &Ty::Int(64), &acc, &p)?;
                }
                set!(acc)
            }
            Ins::Load(ty, p) => {
                let pv = g!(p);
                match pv {
                    V::C(a) => {
                        let v = self.load(st, a, ty)?;
                        set!(v)
                    }
                    V::T(i) => {
                        if let Some(v) = self.ite_load(st, i, ty)? {
                            set!(v)
                        }
                        return Err(Stop::Concretise(p.clone(), i));
                    }
                    _ => Err(Stop::Unsupported("load ptr".into())),
                }
            }
            Ins::Store(ty, v, p) => {
                let a = self.addr(&st.frames[fi], p)?;
                let x = g!(v);
                self.store(st, a, ty, &x)?;
                st.frames[fi].ip += 1;
                Ok(None)
            }
            Ins::Alloca(sz, n) => {
                let n = self.conc(&st.frames[fi], n)?;
                let a = st.mem.alloc(sz * n, 0x5A, false);
                st.frames[fi].allocas.push((a >> 32) as u32);
                set!(V::C(a))
            }
            Ins::CmpXchg(ty, p, c, n) => {
                let a = self.addr(&st.frames[fi], p)?;
                let old = self.load(st, a, ty)?;
                let (cv, nv) = (g!(c), g!(n));
                let e = self.icmp1(IP::Eq, ty, &old, &cv);
                match e {
                    V::C(x) => {
                        if x != 0 {
                            self.store(st, a, ty, &nv)?;
                        }
                        set!(V::Agg(vec![old, V::C(x)].into()))
                    }
                    _ => {
                        let nn = self.sel(&e, ty, &nv, &old)?;
                        self.store(st, a, ty, &nn)?;
                        set!(V::Agg(vec![old, e].into()))
                    }
                }
            }
            Ins::Rmw(op, ty, p, v) => {
                let a = self.addr(&st.frames[fi], p)?;
                let old = self.load(st, a, ty)?;
                let x = g!(v);
                let n = match &**op {
                    "xchg" => x,
                    "add" => self.bin1(Bin::Add, ty, &old, &x)?,
                    "sub" => self.bin1(Bin::Sub, ty, &old, &x)?,
                    "and" => self.bin1(Bin::And, ty, &old, &x)?,
                    "or" => self.bin1(Bin::Or, ty, &old, &x)?,
                    "xor" => self.bin1(Bin::Xor, ty, &old, &x)?,
                    "umax" => {
                        let c = self.icmp1(IP::Ugt, ty, &old, &x);
                        self.sel(&c, ty, &old, &x)?
                    }
                    "umin" => {
                        let c = self.icmp1(IP::Ult, ty, &old, &x);
                        self.sel(&c, ty, &old, &x)?
                    }
                    o => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(st, a, ty, &n)?;
                if dst != NONE {
                    set!(old)
                }
                st.frames[fi].ip += 1;
                Ok(None)
            }
            Ins::Fence => {
                st.frames[fi].ip += 1;
                Ok(None)
            }
            Ins::ExtractValue(a, idx) => {
                let mut v = g!(a);
                for i in idx {
                    v = match &v {
                        V::Agg(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Unsupported("extractvalue".into())),
                    };
                }
                set!(v)
            }
            Ins::InsertValue(_, a, v, idx) => {
                let (x, y) = (g!(a), g!(v));
                fn ins(a: &V, v: V, idx: &[u32]) -> V {
                    if idx.is_empty() {
                        return v;
                    }
                    match a {
                        V::Agg(x) => {
                            let mut n: Vec<V> = x.to_vec();
                            let k = idx[0] as usize;
                            n[k] = ins(&n[k].clone(), v, &idx[1..]);
                            V::Agg(n.into())
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                set!(ins(&x, y, idx))
            }
            Ins::ExtractElement(_, a, i) => {
                let v = g!(a);
                let k = self.conc(&st.frames[fi], i)?;
                match v {
                    V::Agg(x) => set!(x[k as usize].clone()),
                    _ => Err(Stop::Unsupported("extractelement".into())),
                }
            }
            Ins::InsertElement(_, a, v, i) => {
                let (x, y) = (g!(a), g!(v));
                let k = self.conc(&st.frames[fi], i)?;
                match x {
                    V::Agg(x) => {
                        let mut n: Vec<V> = x.to_vec();
                        n[k as usize] = y;
                        set!(V::Agg(n.into()))
                    }
                    _ => Err(Stop::Unsupported("insertelement".into())),
                }
            }
            Ins::Shuffle(_, a, b, mk) => {
                let (x, y) = (g!(a), g!(b));
                match (&x, &y) {
                    (V::Agg(p), V::Agg(q)) => {
                        let out: Vec<V> = mk
                            .iter()
                            .map(|k| {
                                let k = (*k).max(0) as usize;
                                if k < p.len() {
                                    p[k].clone()
                                } else {
                                    q[k - p.len()].clone()
                                }
                            })
                            .collect();
                        set!(V::Agg(out.into()))
                    }
                    _ => Err(Stop::Unsupported("shuffle".into())),
                }
            }
            Ins::Freeze(a) => {
                let v = g!(a);
                set!(v)
            }
            Ins::Br(l) => {
                self.transitions += 1;
                self.jump(st, *l);
                Ok(None)
            }
            Ins::CondBr(c, a, b) => {
                self.transitions += 1;
                match g!(c) {
                    V::C(x) => {
                        self.jump(st, if x & 1 != 0 { *a } else { *b });
                        Ok(None)
                    }
                    V::T(i) => {
                        let ni = self.t.not(i);
                        let s1 = self.restrict(st, i);
                        let s2 = self.restrict(st, ni);
                        match (s1, s2) {
                            (Some(mut s1), Some(mut s2)) => {
                                self.forks += 1;
                                s1.forks += 1;
                                s2.forks += 1;
                                self.jump(&mut s1, *a);
                                self.jump(&mut s2, *b);
                                self.work.push(s2);
                                *st = s1;
                                Ok(None)
                            }
                            (Some(mut s1), None) => {
                                s1.pc = st.pc.clone();
                                self.jump(&mut s1, *a);
                                *st = s1;
                                Ok(None)
                            }
                            (None, Some(mut s2)) => {
                                s2.pc = st.pc.clone();
                                self.jump(&mut s2, *b);
                                *st = s2;
                                Ok(None)
                            }
                            (None, None) => Err(Stop::Infeasible),
                        }
                    }
                    _ => Err(Stop::Unsupported("br cond".into())),
                }
            }
            Ins::Switch(ty, v, d, cs) => {
                self.transitions += 1;
                match g!(v) {
                    V::C(x) => {
                        let mut to = *d;
                        for (k, l) in cs {
                            if *k == x {
                                to = *l;
                                break;
                            }
                        }
                        self.jump(st, to);
                        Ok(None)
                    }
                    V::T(i) => {
                        if self.t.sort(i) == Sort::Bool {
                            return Err(Stop::Unsupported("switch on bool".into()));
                        }
                        let mut rest = st.clone();
                        let mut live: Vec<State> = vec![];
                        let mut alive = true;
                        for (k, l) in cs {
                            let kk = self.t.cst(sort_of(ty), *k as u128);
                            let e = self.t.eq(i, kk);
                            if let Some(mut s) = self.restrict(&rest, e) {
                                self.jump(&mut s, *l);
                                live.push(s);
                            }
                            let ne = self.t.not(e);
                            match self.restrict(&rest, ne) {
                                Some(s) => rest = s,
                                None => {
                                    alive = false;
                                    break;
                                }
                            }
                        }
                        if alive {
                            self.jump(&mut rest, *d);
                            live.push(rest);
                        }
                        if live.is_empty() {
                            return Err(Stop::Infeasible);
                        }
                        *st = live.pop().unwrap();
                        self.forks += live.len() as u64;
                        self.work.extend(live);
                        Ok(None)
                    }
                    V::W(_) | V::Agg(_) => Err(Stop::Unsupported("switch".into())),
                }
            }
            Ins::Ret(v) => {
                let val = v.as_ref().map(|(_, o)| g!(o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    st.mem.objs[a as usize - 1] = Rc::new(Obj { data: vec![], tag: None, alive: false, ro: false, heap: false });
                    st.mem.free.push(a);
                }
                if st.frames.is_empty() {
                    return Ok(Some(val.unwrap_or(V::C(0))));
                }
                let caller = st.frames.last_mut().unwrap();
                if fr.dst != NONE {
                    caller.regs[fr.dst as usize] = val.unwrap_or(V::C(0));
                }
                caller.ip += 1;
                Ok(None)
            }
            Ins::Unreachable => Err(Stop::Fault("reached unreachable code".into())),
            Ins::Call(rt, callee, ops) => {
                let f = match callee {
                    Callee::Fun(f) => *f,
                    Callee::Ptr(o) => {
                        let a = self.addr(&st.frames[fi], o)?;
                        let id = a >> 32;
                        if id < FN_BASE || (id - FN_BASE) as usize >= m.funcs.len() || a & 0xffff_ffff != 0 {
                            return Err(Stop::Fault(format!("call through bad pointer {:#x}", a)));
                        }
                        (id - FN_BASE) as u32
                    }
                    Callee::Asm(s) => {
                        let (t, o) = &ops[0];
                        let x = g!(o);
                        let t = t.clone();
                        if s.starts_with("sqrtsd") || s.starts_with("sqrtss") {
                            let r = self.un(Op::FSqrt, 0, &t, &x);
                            set!(r)
                        }
                        return Err(Stop::Unsupported(format!("asm {}", s)));
                    }
                };
                let e = self.ext[f as usize];
                let mut args: Vec<V> = Vec::with_capacity(ops.len());
                for (_, o) in ops {
                    args.push(g!(o));
                }
                let sym = || args.iter().any(|a| matches!(a, V::T(_)));
                if e == Ext::Defined || (e == Ext::Uf && !sym()) {
                    if st.frames.len() > 2000 {
                        return Err(Stop::Fault("stack overflow".into()));
                    }
                    self.funcs_run.insert(f);
                    let fr = self.frame(f, args, dst);
                    st.frames.push(fr);
                    return Ok(None);
                }
                let ta: Vec<(Ty, V)> = ops.iter().map(|o| o.0.clone()).zip(args).collect();
                let r = self.ext_call(st, f, e, rt, &ta, ops)?;
                // ext_call may fork (choose) but leaves st at this instruction
                let fr = st.frames.last_mut().unwrap();
                if dst != NONE {
                    if let Some(v) = r {
                        fr.regs[dst as usize] = v;
                    }
                }
                fr.ip += 1;
                Ok(None)
            }
        }
    }

    fn bin_s(&mut self, op: Bin, ty: &Ty, a: &V, b: &V) -> R<V> {
        if let Ty::Int(n) = ty {
            if *n > 64 {
                if let (Some(x), Some(y)) = (cbits(a), cbits(b)) {
                    let o = match op {
                        Bin::Add => Op::Add,
                        Bin::Sub => Op::Sub,
                        Bin::Mul => Op::Mul,
                        Bin::UDiv => Op::UDiv,
                        Bin::SDiv => Op::SDiv,
                        Bin::URem => Op::URem,
                        Bin::SRem => Op::SRem,
                        Bin::And => Op::BAnd,
                        Bin::Or => Op::BOr,
                        Bin::Xor => Op::BXor,
                        Bin::Shl => Op::Shl,
                        Bin::LShr => Op::LShr,
                        Bin::AShr => Op::AShr,
                        _ => unreachable!(),
                    };
                    let s = Sort::Bv(*n as u8);
                    return Ok(mkint(*n, fold(o, s, 0, &[s, s], &[x, y])));
                }
            }
        }
        self.bin1(op, ty, a, b)
    }

    /// Load through a symbolic address confined to one object: build an ITE over candidates.
    fn ite_load(&mut self, st: &State, a: Id, ty: &Ty) -> R<Option<V>> {
        if matches!(ty, Ty::Arr(..) | Ty::Struct(..)) {
            return Ok(None);
        }
        let (lo, hi) = self.t.biv(a);
        if lo >> 32 != hi >> 32 {
            return Ok(None);
        }
        let sz = ty.size();
        let tz = self.t.tz(a).min(12);
        let stride = 1u64 << tz;
        if (hi - lo) / stride > 300 {
            return Ok(None);
        }
        let first = (lo + stride - 1) / stride * stride;
        if st.mem.locate(first, sz, false).is_err() {
            return Ok(None);
        }
        let mut cand = vec![];
        let mut x = first;
        while x <= hi {
            if st.mem.locate(x, sz, false).is_err() {
                return Ok(None);
            }
            cand.push(x);
            x += stride;
        }
        let mut acc: Option<V> = None;
        for k in 0..cand.len() {
            let kk = self.t.cst(Sort::Bv(64), cand[k] as u128);
            let e = self.t.eq(a, kk);
            if self.t.cval(e) == Some(0) {
                continue;
            }
            let v = self.load(st, cand[k], ty)?;
            acc = Some(match acc {
                None => v,
                Some(acc) => {
                    let e = self.vl(e);
                    self.sel(&e, ty, &v, &acc)?
                }
            });
        }
        let acc = match acc {
            Some(a) => a,
            None => return Ok(None),
        };
        Ok(Some(acc))
    }

    fn concretise(&mut self, st: State, o: Opd, i: Id) {
        // enumerate feasible values of i
        let mut vals: Vec<u128> = vec![];
        for k in 0..W {
            if st.mask & (1 << k) != 0 {
                let v = self.t.col(i, k);
                if !vals.contains(&v) {
                    vals.push(v);
                }
            }
        }
        for w in st.wits.clone() {
            let v = self.eval_wit(&w, i);
            if !vals.contains(&v) {
                vals.push(v);
            }
        }
        let sort = self.t.sort(i);
        let mut cur = st;
        let mut n = 0;
        let mut q = std::collections::VecDeque::from(vals);
        loop {
            let v = match q.pop_front() {
                Some(v) => v,
                None => {
                    // ask for another value
                    if n > 600 {
                        self.incomplete.push(format!("more than {} values for a symbolic address", n));
                        return;
                    }
                    let cs = cur.pc.to_vec();
                    match self.s.check(&mut self.t, &cs, self.lim.feas_ms * 4) {
                        Verdict::Unsat => return,
                        Verdict::Sat(vars) => {
                            let w = Rc::new(Witness { vars, memo: Default::default() });
                            if !cs.iter().all(|x| self.eval_wit(&w, *x) != 0) {
                                self.incomplete.push("address enumeration: spurious model".into());
                                return;
                            }
                            self.eval_wit(&w, i)
                        }
                        Verdict::Unknown => {
                            self.incomplete.push("address enumeration: solver unknown".into());
                            return;
                        }
                    }
                }
            };
            n += 1;
            let kk = self.t.cst(sort, v);
            let e = self.t.eq(i, kk);
            if let Some(mut s) = self.restrict(&cur, e) {
                let fr = s.frames.last_mut().unwrap();
                match &o {
                    Opd::R(r) => fr.regs[*r as usize] = V::C(v as u64),
                    _ => {}
                }
                self.forks += 1;
                self.work.push(s);
            }
            let ne = self.t.not(e);
            // rest
            let bm = self.t.boolmask(ne) & cur.mask;
            let mut pc = cur.pc.to_vec();
            pc.push(ne);
            cur.pc = Rc::new(pc);
            cur.mask = bm;
            cur.wits.clear();
        }
    }

    /// Explore everything on the worklist.
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            self.last_inputs.clear();
            if self.paths >= self.lim.paths {
                self.incomplete.push(format!("path limit {} reached", self.lim.paths));
                self.work.clear();
                return;
            }
            let mut k = 0u64;
            loop {
                k += 1;
                if k & 0xff == 0 {
                    if std::time::Instant::now() > self.lim.deadline {
                        self.incomplete.push("time limit reached during exploration".into());
                        self.work.clear();
                        return;
                    }
                    if st.steps > self.lim.steps {
                        self.incomplete.push("step limit reached on a path".into());
                        break;
                    }
                }
                let r = self.step(&mut st);
                if self.concrete.is_some() && !matches!(r, Ok(None)) {
                    self.last_inputs = st.inputs.to_vec();
                }
                match r {
                    Ok(None) => {}
                    Ok(Some(_)) => {
                        self.paths += 1;
                        if self.concrete.is_some() {
                            self.traces.push(st.trace.clone());
                        }
                        if st.certain {
                            *self.reach.entry("end".into()).or_insert(0) += 1;
                        }
                        if self.sample_states.len() < 3 || (self.paths % 97 == 0 && self.sample_states.len() < 8) {
                            let s = self.describe(&st);
                            self.sample_states.push(s);
                        }
                        break;
                    }
                    Err(Stop::Infeasible) => {
                        self.pruned += 1;
                        break;
                    }
                    Err(Stop::Fault(m)) => {
                        self.paths += 1;
                        let tr = self.backtrace(&st);
                        self.oblige(&st, Kind::Fault, format!("{} [in {}]", m, tr));
                        break;
                    }
                    Err(Stop::Unsupported(m)) => {
                        self.paths += 1;
                        let tr = self.backtrace(&st);
                        self.incomplete.push(format!("unsupported: {} [in {}]", m, tr));
                        break;
                    }
                    Err(Stop::Concretise(o, i)) => {
                        self.concretise(st, o, i);
                        break;
                    }
                    Err(Stop::Done) => {
                        self.paths += 1;
                        break;
                    }
                }
            }
        }
    }

    pub fn demangled(&self, f: u32) -> String {
        self.m.funcs[f as usize].name.clone()
    }

    fn backtrace(&self, st: &State) -> String {
        let v: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(4)
            .map(|f| {
                let (a, b) = last_ident(&self.m.funcs[f.f as usize].name);
                format!("{}::{}", a, b)
            })
            .collect();
        v.join(" < ")
    }

    fn describe(&mut self, st: &State) -> String {
        let ch: Vec<String> = st
            .inputs
            .iter()
            .map(|i| match i {
                Input::Choice(v, n) => format!("{}/{}", v, n),
                Input::Term(_) => "sym".into(),
            })
            .collect();
        let mut out: Vec<String> = vec![];
        // compress runs of sym
        let mut k = 0;
        while k < ch.len() {
            let mut j = k;
            while j < ch.len() && ch[j] == ch[k] && ch[k] == "sym" {
                j += 1;
            }
            if j > k + 1 {
                out.push(format!("sym x{}", j - k));
                k = j;
            } else {
                out.push(ch[k].clone());
                k += 1;
            }
        }
        format!("inputs [{}], {} branch conditions, {} checks, {} instructions", out.join(", "), st.pc.len(), st.checks, st.steps)
    }
}

fn sat_op(op: Bin, signed: bool, n: u32, x: u128, y: u128) -> u128 {
    if signed {
        let (a, b) = (sext(x, n), sext(y, n));
        let lo = -(1i128 << (n - 1));
        let hi = (1i128 << (n - 1)) - 1;
        let r = match op {
            Bin::Add => a.saturating_add(b),
            Bin::Sub => a.saturating_sub(b),
            _ => a.saturating_mul(b),
        };
        (r.clamp(lo, hi) as u128) & mask(n)
    } else {
        match op {
            Bin::Add => x.saturating_add(y).min(mask(n)),
            Bin::Sub => x.saturating_sub(y),
            _ => x.saturating_mul(y).min(mask(n)),
        }
    }
}
