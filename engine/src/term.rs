//! Hash-consed terms with constant folding, simplification, intervals and sampled values.
use std::collections::HashMap;

pub const W: usize = 32;
pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sort {
    Bool,
    Bv(u8),
    F32,
    F64,
}
impl Sort {
    pub fn is_f(self) -> bool {
        matches!(self, Sort::F32 | Sort::F64)
    }
    pub fn bits(self) -> u32 {
        match self {
            Sort::Bool => 1,
            Sort::Bv(n) => n as u32,
            Sort::F32 => 32,
            Sort::F64 => 64,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var,
    Uf,
    Not,
    And,
    Or,
    Ite,
    Eq,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    BAnd,
    BOr,
    BXor,
    Shl,
    LShr,
    AShr,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract,
    Concat,
    FAdd,
    FMul,
    FDiv,
    FRem,
    FNeg,
    FAbs,
    FSqrt,
    FRnd,
    Fma,
    FCvt,
    SToF,
    UToF,
    FToS,
    FToU,
    FLt,
    FLe,
    FEq,
    FIsNan,
    F2B,
    B2F,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub sort: Sort,
    pub n: u8,
    pub a: [Id; 3],
    pub aux: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
}
impl Iv {
    pub fn full() -> Iv {
        Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true }
    }
    pub fn new(lo: f64, hi: f64) -> Iv {
        Iv { lo, hi, nan: false }
    }
    pub fn finite(&self) -> bool {
        !self.nan && self.lo.is_finite() && self.hi.is_finite()
    }
    pub fn hull(self, o: Iv) -> Iv {
        Iv { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi), nan: self.nan || o.nan }
    }
    pub fn mag(&self) -> f64 {
        if self.nan {
            f64::INFINITY
        } else {
            self.lo.abs().max(self.hi.abs())
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Info {
    F(Iv),
    B(u64, u64),
    X,
}

pub struct VarInfo {
    pub sort: Sort,
    pub name: String,
    pub lo: f64,
    pub hi: f64,
    pub ulo: u64,
    pub uhi: u64,
    pub id: Id,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    pub vals: Vec<[u64; W]>,
    pub wide: HashMap<Id, Box<[u128; W]>>,
    pub map: HashMap<Node, Id>,
    pub vars: Vec<VarInfo>,
    pub ufs: Vec<String>,
    pub seed: u64,
    pub simplify_masks: bool,
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}
pub fn sext(v: u128, bits: u32) -> i128 {
    if bits >= 128 {
        return v as i128;
    }
    let s = 128 - bits;
    ((v << s) as i128) >> s
}
pub fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}
pub fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
pub fn rnd(mode: u128, x: f64) -> f64 {
    match mode {
        0 => x.floor(),
        1 => x.ceil(),
        2 => x.trunc(),
        3 => x.round_ties_even(),
        _ => x.round(),
    }
}
pub fn getf(s: Sort, v: u128) -> f64 {
    match s {
        Sort::F32 => f32b(v) as f64,
        Sort::F64 => f64b(v),
        _ => panic!("getf"),
    }
}
pub fn putf(s: Sort, x: f64) -> u128 {
    match s {
        Sort::F32 => (x as f32).to_bits() as u128,
        Sort::F64 => x.to_bits() as u128,
        _ => panic!("putf"),
    }
}

/// Concrete semantics of an operation.
pub fn fold(op: Op, sort: Sort, aux: u128, srt: &[Sort], v: &[u128]) -> u128 {
    let m = mask(sort.bits());
    let fb = |x: f32| x.to_bits() as u128;
    let db = |x: f64| x.to_bits() as u128;
    match op {
        Op::Not => (v[0] == 0) as u128,
        Op::And => (v[0] != 0 && v[1] != 0) as u128,
        Op::Or => (v[0] != 0 || v[1] != 0) as u128,
        Op::Ite => {
            if v[0] != 0 {
                v[1]
            } else {
                v[2]
            }
        }
        Op::Eq => (v[0] == v[1]) as u128,
        Op::Add => v[0].wrapping_add(v[1]) & m,
        Op::Sub => v[0].wrapping_sub(v[1]) & m,
        Op::Mul => v[0].wrapping_mul(v[1]) & m,
        Op::UDiv => {
            if v[1] == 0 {
                m
            } else {
                v[0] / v[1]
            }
        }
        Op::URem => {
            if v[1] == 0 {
                v[0]
            } else {
                v[0] % v[1]
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(v[0], sort.bits()), sext(v[1], sort.bits()));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sext(v[0], sort.bits()), sext(v[1], sort.bits()));
            if b == 0 {
                v[0]
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::BAnd => v[0] & v[1],
        Op::BOr => v[0] | v[1],
        Op::BXor => v[0] ^ v[1],
        Op::Shl => {
            if v[1] >= sort.bits() as u128 {
                0
            } else {
                (v[0] << v[1]) & m
            }
        }
        Op::LShr => {
            if v[1] >= sort.bits() as u128 {
                0
            } else {
                v[0] >> v[1]
            }
        }
        Op::AShr => {
            let a = sext(v[0], sort.bits());
            let s = v[1].min(sort.bits() as u128 - 1);
            ((a >> s) as u128) & m
        }
        Op::Ult => (v[0] < v[1]) as u128,
        Op::Ule => (v[0] <= v[1]) as u128,
        Op::Slt => (sext(v[0], srt[0].bits()) < sext(v[1], srt[0].bits())) as u128,
        Op::Sle => (sext(v[0], srt[0].bits()) <= sext(v[1], srt[0].bits())) as u128,
        Op::ZExt => v[0],
        Op::SExt => (sext(v[0], srt[0].bits()) as u128) & m,
        Op::Extract => (v[0] >> aux) & m,
        Op::Concat => (v[0] << srt[1].bits()) | v[1],
        Op::FAdd => match sort {
            Sort::F32 => fb(f32b(v[0]) + f32b(v[1])),
            _ => db(f64b(v[0]) + f64b(v[1])),
        },
        Op::FMul => match sort {
            Sort::F32 => fb(f32b(v[0]) * f32b(v[1])),
            _ => db(f64b(v[0]) * f64b(v[1])),
        },
        Op::FDiv => match sort {
            Sort::F32 => fb(f32b(v[0]) / f32b(v[1])),
            _ => db(f64b(v[0]) / f64b(v[1])),
        },
        Op::FRem => match sort {
            Sort::F32 => fb(f32b(v[0]) % f32b(v[1])),
            _ => db(f64b(v[0]) % f64b(v[1])),
        },
        Op::Fma => match sort {
            Sort::F32 => fb(f32b(v[0]).mul_add(f32b(v[1]), f32b(v[2]))),
            _ => db(f64b(v[0]).mul_add(f64b(v[1]), f64b(v[2]))),
        },
        Op::FNeg => v[0] ^ (1u128 << (sort.bits() - 1)),
        Op::FAbs => v[0] & (mask(sort.bits()) >> 1),
        Op::FSqrt => match sort {
            Sort::F32 => fb(f32b(v[0]).sqrt()),
            _ => db(f64b(v[0]).sqrt()),
        },
        Op::FRnd => match sort {
            Sort::F32 => fb(rnd(aux, f32b(v[0]) as f64) as f32),
            _ => db(rnd(aux, f64b(v[0]))),
        },
        Op::FCvt => match (srt[0], sort) {
            (Sort::F32, Sort::F64) => db(f32b(v[0]) as f64),
            (Sort::F64, Sort::F32) => fb(f64b(v[0]) as f32),
            _ => v[0],
        },
        Op::SToF => {
            let i = sext(v[0], srt[0].bits());
            match sort {
                Sort::F32 => fb(i as f32),
                _ => db(i as f64),
            }
        }
        Op::UToF => match sort {
            Sort::F32 => fb(v[0] as f32),
            _ => db(v[0] as f64),
        },
        Op::FToS => {
            let x = getf(srt[0], v[0]);
            let n = sort.bits();
            let lo = -(1i128 << (n - 1));
            let hi = (1i128 << (n - 1)) - 1;
            if x.is_nan() {
                0
            } else {
                ((x as i128).clamp(lo, hi) as u128) & m
            }
        }
        Op::FToU => {
            let x = getf(srt[0], v[0]);
            if x.is_nan() {
                0
            } else {
                (x as u128).min(m)
            }
        }
        Op::FLt => (getf(srt[0], v[0]) < getf(srt[0], v[1])) as u128,
        Op::FLe => (getf(srt[0], v[0]) <= getf(srt[0], v[1])) as u128,
        Op::FEq => (getf(srt[0], v[0]) == getf(srt[0], v[1])) as u128,
        Op::FIsNan => getf(srt[0], v[0]).is_nan() as u128,
        Op::F2B | Op::B2F => v[0],
        Op::Const | Op::Var | Op::Uf => panic!("fold {:?}", op),
    }
}

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Terms {
    pub fn new(seed: u64) -> Terms {
        Terms {
            nodes: vec![],
            info: vec![],
            vals: vec![],
            wide: HashMap::new(),
            map: HashMap::new(),
            vars: vec![],
            ufs: vec![],
            seed,
            simplify_masks: true,
        }
    }
    pub fn node(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    pub fn sort(&self, i: Id) -> Sort {
        self.nodes[i as usize].sort
    }
    pub fn cval(&self, i: Id) -> Option<u128> {
        let n = self.node(i);
        if n.op == Op::Const {
            Some(n.aux)
        } else {
            None
        }
    }
    pub fn fiv(&self, i: Id) -> Iv {
        match self.info[i as usize] {
            Info::F(v) => v,
            _ => Iv::full(),
        }
    }
    pub fn biv(&self, i: Id) -> (u64, u64) {
        match self.info[i as usize] {
            Info::B(a, b) => (a, b),
            _ => (0, u64::MAX),
        }
    }
    pub fn col(&self, i: Id, k: usize) -> u128 {
        if let Some(w) = self.wide.get(&i) {
            w[k]
        } else {
            self.vals[i as usize][k] as u128
        }
    }
    pub fn boolmask(&self, i: Id) -> u32 {
        let mut m = 0;
        for k in 0..W {
            if self.vals[i as usize][k] != 0 {
                m |= 1 << k;
            }
        }
        m
    }
    pub fn push(&mut self, n: Node, info: Info, vals: Option<[u64; W]>) -> Id {
        let id = self.nodes.len() as Id;
        let v = match vals {
            Some(v) => v,
            None => {
                let wide = n.sort.bits() > 64 || (0..n.n as usize).any(|i| self.sort(n.a[i]).bits() > 64);
                let srt: Vec<Sort> = (0..n.n as usize).map(|i| self.sort(n.a[i])).collect();
                let mut out = [0u64; W];
                let mut wout = if n.sort.bits() > 64 { Some(Box::new([0u128; W])) } else { None };
                let mut av = [0u128; 3];
                for k in 0..W {
                    for i in 0..n.n as usize {
                        av[i] = if wide { self.col(n.a[i], k) } else { self.vals[n.a[i] as usize][k] as u128 };
                    }
                    let r = if n.op == Op::Const { n.aux } else { fold(n.op, n.sort, n.aux, &srt, &av[..n.n as usize]) };
                    out[k] = r as u64;
                    if let Some(w) = &mut wout {
                        w[k] = r;
                    }
                }
                if let Some(w) = wout {
                    self.wide.insert(id, w);
                }
                out
            }
        };
        self.nodes.push(n.clone());
        self.info.push(info);
        self.vals.push(v);
        self.map.insert(n, id);
        id
    }
    pub fn cst(&mut self, sort: Sort, v: u128) -> Id {
        let v = v & mask(sort.bits());
        let n = Node { op: Op::Const, sort, n: 0, a: [0; 3], aux: v };
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let info = match sort {
            Sort::F32 | Sort::F64 => {
                let x = getf(sort, v);
                if x.is_nan() {
                    Info::F(Iv::full())
                } else {
                    Info::F(Iv::new(x, x))
                }
            }
            Sort::Bv(n) if n <= 64 => Info::B(v as u64, v as u64),
            _ => Info::X,
        };
        self.push(n, info, None)
    }
    pub fn bool(&mut self, b: bool) -> Id {
        self.cst(Sort::Bool, b as u128)
    }
    pub fn fcst(&mut self, sort: Sort, x: f64) -> Id {
        self.cst(sort, putf(sort, x))
    }
    /// New symbolic float in [lo, hi].
    pub fn fvar(&mut self, sort: Sort, lo: f64, hi: f64) -> Id {
        let k = self.vars.len();
        let mut v = [0u64; W];
        for c in 0..W {
            let mut s = self.seed ^ ((c as u64 + 1) * 0x1234567_89AB) ^ ((k as u64 + 1) * 0xABCDEF_0123);
            let r0 = splitmix(&mut s);
            let u = (splitmix(&mut s) >> 11) as f64 / (1u64 << 53) as f64;
            let mut x = match c {
                0 => lo + (hi - lo) * u,
                1 => hi,
                2 => lo,
                3 => {
                    // same value for every variable with this range
                    let mut q = self.seed ^ 0x77;
                    let uu = (splitmix(&mut q) >> 11) as f64 / (1u64 << 53) as f64;
                    lo + (hi - lo) * uu
                }
                4..=8 => {
                    let c = [lo, hi, 0.0, 1.0, -1.0, 0.5, -0.5, 0.25, (lo + hi) * 0.5];
                    c[(r0 % 9) as usize]
                }
                9..=12 => {
                    // log-scaled around 0 / lo
                    let e = -(u * 20.0);
                    let b = if lo > 0.0 { lo } else { 0.0 };
                    if r0 & 1 == 0 && lo < 0.0 {
                        lo * libm_exp2(e)
                    } else {
                        b + (hi - b) * libm_exp2(e)
                    }
                }
                13 | 14 => {
                    let g = lo + (hi - lo) * u;
                    (g * 8.0).round() / 8.0
                }
                15 => if k & 1 == 0 { hi } else { lo },
                _ => lo + (hi - lo) * u,
            };
            if sort == Sort::F32 {
                x = x as f32 as f64;
            }
            x = x.clamp(lo, hi);
            v[c] = putf(sort, x) as u64;
        }
        let n = Node { op: Op::Var, sort, n: 0, a: [0; 3], aux: k as u128 };
        let id = self.push(n, Info::F(Iv::new(lo, hi)), Some(v));
        self.vars.push(VarInfo { sort, name: format!("x{}", k), lo, hi, ulo: 0, uhi: 0, id });
        id
    }
    pub fn bvar(&mut self, bits: u8, lo: u64, hi: u64) -> Id {
        let k = self.vars.len();
        let mut v = [0u64; W];
        for c in 0..W {
            let mut s = self.seed ^ ((c as u64 + 1) * 0x1234567_89AB) ^ ((k as u64 + 1) * 0xABCDEF_0123);
            let r = splitmix(&mut s);
            let span = hi.wrapping_sub(lo);
            v[c] = match c {
                1 => hi,
                2 => lo,
                3 => lo + span / 2,
                4..=10 => {
                    let sh = (splitmix(&mut s) % 64) as u32;
                    let q = r >> sh;
                    if span == u64::MAX { q } else { lo + q % (span + 1) }
                }
                _ => {
                    if span == u64::MAX {
                        r
                    } else {
                        lo + r % (span + 1)
                    }
                }
            };
        }
        let sort = Sort::Bv(bits);
        let n = Node { op: Op::Var, sort, n: 0, a: [0; 3], aux: k as u128 };
        let id = self.push(n, Info::B(lo, hi), Some(v));
        self.vars.push(VarInfo { sort, name: format!("x{}", k), lo: 0.0, hi: 0.0, ulo: lo, uhi: hi, id });
        id
    }
    pub fn find_uf(&mut self, name: &str) -> u128 {
        if let Some(i) = self.ufs.iter().position(|n| n == name) {
            i as u128
        } else {
            self.ufs.push(name.to_string());
            self.ufs.len() as u128 - 1
        }
    }
    pub fn lookup_uf(&mut self, name: &str, sort: Sort, args: &[Id]) -> Option<Id> {
        let f = self.find_uf(name);
        let mut a = [0; 3];
        a[..args.len()].copy_from_slice(args);
        let n = Node { op: Op::Uf, sort, n: args.len() as u8, a, aux: f };
        self.map.get(&n).copied()
    }
    pub fn uf(&mut self, name: &str, sort: Sort, args: &[Id], vals: [u64; W], info: Info) -> Id {
        let f = self.find_uf(name);
        let mut a = [0; 3];
        a[..args.len()].copy_from_slice(args);
        let n = Node { op: Op::Uf, sort, n: args.len() as u8, a, aux: f };
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        self.push(n, info, Some(vals))
    }

    /// A finite f64 term with the value of some f32.
    fn from_f32(&self, i: Id) -> bool {
        let n = self.node(i);
        match n.op {
            Op::Const => {
                let c = f64::from_bits(n.aux as u64);
                n.sort == Sort::F64 && c.is_finite() && (c as f32) as f64 == c
            }
            Op::FNeg => self.from_f32(n.a[0]),
            Op::FCvt => n.sort == Sort::F64 && self.fiv(i).finite(),
            _ => false,
        }
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = self.node(a).clone();
        match n.op {
            Op::Const => self.bool(n.aux == 0),
            Op::Not => n.a[0],
            Op::FLe if !self.fiv(n.a[0]).nan && !self.fiv(n.a[1]).nan => self.mk(Op::FLt, Sort::Bool, 0, &[n.a[1], n.a[0]]),
            Op::FLt if !self.fiv(n.a[0]).nan && !self.fiv(n.a[1]).nan => self.mk(Op::FLe, Sort::Bool, 0, &[n.a[1], n.a[0]]),
            Op::Ult => self.mk(Op::Ule, Sort::Bool, 0, &[n.a[1], n.a[0]]),
            Op::Ule => self.mk(Op::Ult, Sort::Bool, 0, &[n.a[1], n.a[0]]),
            Op::Slt => self.mk(Op::Sle, Sort::Bool, 0, &[n.a[1], n.a[0]]),
            Op::Sle => self.mk(Op::Slt, Sort::Bool, 0, &[n.a[1], n.a[0]]),
            _ => self.raw(Op::Not, Sort::Bool, 0, &[a]),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.mk(Op::And, Sort::Bool, 0, &[a, b])
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.mk(Op::Or, Sort::Bool, 0, &[a, b])
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        let s = self.sort(a);
        self.mk(Op::Ite, s, 0, &[c, a, b])
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.mk(Op::Eq, Sort::Bool, 0, &[a, b])
    }
    pub fn fneg(&mut self, a: Id) -> Id {
        let s = self.sort(a);
        self.mk(Op::FNeg, s, 0, &[a])
    }
    pub fn fadd(&mut self, a: Id, b: Id) -> Id {
        let s = self.sort(a);
        self.mk(Op::FAdd, s, 0, &[a, b])
    }
    pub fn fsub(&mut self, a: Id, b: Id) -> Id {
        let nb = self.fneg(b);
        self.fadd(a, nb)
    }

    fn raw(&mut self, op: Op, sort: Sort, aux: u128, args: &[Id]) -> Id {
        let mut a = [0; 3];
        a[..args.len()].copy_from_slice(args);
        let n = Node { op, sort, n: args.len() as u8, a, aux };
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let info = self.mkinfo(&n);
        // interval decided comparisons
        if sort == Sort::Bool {
            if let Some(b) = self.decide(&n) {
                return self.bool(b);
            }
        }
        if let Info::F(iv) = info {
            if !iv.nan && iv.lo == iv.hi && iv.lo.is_finite() && op != Op::Uf {
                return self.fcst(sort, iv.lo);
            }
        }
        if let Info::B(l, h) = info {
            if l == h {
                return self.cst(sort, l as u128);
            }
        }
        self.push(n, info, None)
    }

    /// `(x, y)` with `f(x) = a`, `f(y) = b` for the same injective bit vector function `f`, where `b` may be constant.
    fn peel(&mut self, a: Id, b: Id) -> Option<(Id, Id)> {
        let (na, nb) = (self.node(a).clone(), self.node(b).clone());
        if na.sort == Sort::Bool || na.sort.bits() > 64 || !matches!(na.op, Op::Mul | Op::Add | Op::BXor | Op::BOr) {
            return None;
        }
        if let (Op::Mul, Some(k), Some(v)) = (na.op, self.cval(na.a[1]), self.cval(b)) {
            if k & 1 == 1 {
                // Newton iteration for the inverse
                let mut inv: u64 = 1;
                for _ in 0..7 {
                    inv = inv.wrapping_mul(2u64.wrapping_sub((k as u64).wrapping_mul(inv)));
                }
                let y = (v as u64).wrapping_mul(inv) as u128 & mask(na.sort.bits());
                let y = self.cst(na.sort, y);
                return Some((na.a[0], y));
            }
        }
        if na.op != nb.op || na.n != 2 || nb.n != 2 {
            return None;
        }
        if na.a[1] == nb.a[1] {
            if let Some(k) = self.cval(na.a[1]) {
                if na.op == Op::Add || na.op == Op::BXor || (na.op == Op::Mul && k & 1 == 1) {
                    return Some((na.a[0], nb.a[0]));
                }
            }
        }
        let rot = |s: &Self, n: &Node| -> Option<(Id, u128)> {
            for (p, q) in [(n.a[0], n.a[1]), (n.a[1], n.a[0])] {
                let (np, nq) = (s.node(p), s.node(q));
                if np.op == Op::Shl && nq.op == Op::LShr && np.a[0] == nq.a[0] {
                    let (k, l) = (s.cval(np.a[1])?, s.cval(nq.a[1])?);
                    if k + l == n.sort.bits() as u128 {
                        return Some((np.a[0], k));
                    }
                }
            }
            None
        };
        let xs = |s: &Self, n: &Node| -> Option<(Id, u128)> {
            for (p, q) in [(n.a[0], n.a[1]), (n.a[1], n.a[0])] {
                let nq = s.node(q);
                if nq.op == Op::LShr && nq.a[0] == p {
                    let k = s.cval(nq.a[1])?;
                    if k > 0 {
                        return Some((p, k));
                    }
                }
            }
            None
        };
        let (x, y) = match na.op {
            Op::BOr => (rot(self, &na)?, rot(self, &nb)?),
            Op::BXor => (xs(self, &na)?, xs(self, &nb)?),
            _ => return None,
        };
        if x.1 == y.1 {
            Some((x.0, y.0))
        } else {
            None
        }
    }

    fn decide(&self, n: &Node) -> Option<bool> {
        match n.op {
            Op::FLt => {
                let (a, b) = (self.fiv(n.a[0]), self.fiv(n.a[1]));
                if !a.nan && !b.nan && a.hi < b.lo {
                    return Some(true);
                }
                if a.lo >= b.hi {
                    return Some(false);
                }
                None
            }
            Op::FLe => {
                let (a, b) = (self.fiv(n.a[0]), self.fiv(n.a[1]));
                if !a.nan && !b.nan && a.hi <= b.lo {
                    return Some(true);
                }
                if a.lo > b.hi {
                    return Some(false);
                }
                None
            }
            Op::FEq => {
                let (a, b) = (self.fiv(n.a[0]), self.fiv(n.a[1]));
                if a.lo > b.hi || a.hi < b.lo {
                    return Some(false);
                }
                None
            }
            Op::FIsNan => {
                if !self.fiv(n.a[0]).nan {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Ult => {
                let (a, b) = (self.biv(n.a[0]), self.biv(n.a[1]));
                if self.sort(n.a[0]).bits() > 64 {
                    return None;
                }
                if a.1 < b.0 {
                    Some(true)
                } else if a.0 >= b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Ule => {
                let (a, b) = (self.biv(n.a[0]), self.biv(n.a[1]));
                if self.sort(n.a[0]).bits() > 64 {
                    return None;
                }
                if a.1 <= b.0 {
                    Some(true)
                } else if a.0 > b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Slt | Op::Sle => {
                let bits = self.sort(n.a[0]).bits();
                if bits > 64 {
                    return None;
                }
                let (a, b) = (self.biv(n.a[0]), self.biv(n.a[1]));
                let half = 1u64 << (bits - 1);
                let sg = |r: (u64, u64)| -> Option<(i64, i64)> {
                    if r.1 < half || r.0 >= half {
                        Some((sext(r.0 as u128, bits) as i64, sext(r.1 as u128, bits) as i64))
                    } else {
                        None
                    }
                };
                let full = (sext(half as u128, bits) as i64, (half - 1) as i64);
                let (a, b) = (sg(a).unwrap_or(full), sg(b).unwrap_or(full));
                if n.op == Op::Slt {
                    if a.1 < b.0 {
                        Some(true)
                    } else if a.0 >= b.1 {
                        Some(false)
                    } else {
                        None
                    }
                } else if a.1 <= b.0 {
                    Some(true)
                } else if a.0 > b.1 {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Eq => {
                if let (Info::B(a, b), Info::B(c, d)) = (self.info[n.a[0] as usize], self.info[n.a[1] as usize]) {
                    if b < c || d < a {
                        return Some(false);
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn iv_of(&self, i: Id, ov: &[(Id, Iv)], depth: u32) -> Iv {
        for (k, v) in ov {
            if *k == i {
                return *v;
            }
        }
        let base = self.fiv(i);
        let n = self.node(i);
        if depth == 0 || !n.sort.is_f() {
            return base;
        }
        match n.op {
            Op::FAdd | Op::FMul | Op::FNeg | Op::FAbs | Op::FCvt | Op::FDiv | Op::FSqrt | Op::FRnd => {
                let ivs: Vec<Iv> = (0..n.n as usize).map(|k| self.iv_of(n.a[k], ov, depth - 1)).collect();
                let r = self.fop(n, &ivs);
                Iv { lo: r.lo.max(base.lo), hi: r.hi.min(base.hi), nan: r.nan && base.nan }
            }
            _ => base,
        }
    }

    fn fop(&self, n: &Node, v: &[Iv]) -> Iv {
        let s = n.sort;
        let r = |x: f64| -> f64 {
            if s == Sort::F32 {
                x as f32 as f64
            } else {
                x
            }
        };
        let nan = v.iter().any(|i| i.nan);
        match n.op {
            Op::FAdd => {
                let lo = r(v[0].lo + v[1].lo);
                let hi = r(v[0].hi + v[1].hi);
                let infs = (v[0].hi == f64::INFINITY && v[1].lo == f64::NEG_INFINITY) || (v[1].hi == f64::INFINITY && v[0].lo == f64::NEG_INFINITY);
                if lo.is_nan() || hi.is_nan() {
                    return Iv::full();
                }
                // x + neg(floor(x)) in [0,1]
                for (p, q) in [(0, 1), (1, 0)] {
                    let nn = self.node(n.a[q]);
                    if nn.op == Op::FNeg {
                        let fl = self.node(nn.a[0]);
                        if fl.op == Op::FRnd && fl.a[0] == n.a[p] && !nan && self.fiv(n.a[p]).finite() {
                            match fl.aux {
                                0 => return Iv::new(0.0, 1.0),
                                1 => return Iv::new(-1.0, 0.0),
                                2 => return Iv::new(-1.0, 1.0),
                                _ => return Iv::new(-0.5, 0.5),
                            }
                        }
                    }
                }
                Iv { lo, hi, nan: nan || infs }
            }
            Op::FMul => {
                if n.a[0] == n.a[1] && !nan {
                    let a = v[0];
                    let m = a.mag();
                    let mn = if a.lo <= 0.0 && a.hi >= 0.0 { 0.0 } else { a.lo.abs().min(a.hi.abs()) };
                    return Iv::new(r(mn * mn), r(m * m));
                }
                let p = [v[0].lo * v[1].lo, v[0].lo * v[1].hi, v[0].hi * v[1].lo, v[0].hi * v[1].hi];
                if p.iter().any(|x| x.is_nan()) {
                    return Iv::full();
                }
                let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                let z = |i: &Iv| i.lo <= 0.0 && i.hi >= 0.0;
                let inf = |i: &Iv| i.lo.is_infinite() || i.hi.is_infinite();
                Iv { lo: r(lo), hi: r(hi), nan: nan || (z(&v[0]) && inf(&v[1])) || (z(&v[1]) && inf(&v[0])) }
            }
            Op::FDiv => {
                if v[1].lo <= 0.0 && v[1].hi >= 0.0 {
                    return Iv::full();
                }
                let p = [v[0].lo / v[1].lo, v[0].lo / v[1].hi, v[0].hi / v[1].lo, v[0].hi / v[1].hi];
                if p.iter().any(|x| x.is_nan()) {
                    return Iv::full();
                }
                let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
                let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                Iv { lo: r(lo), hi: r(hi), nan }
            }
            Op::FNeg => Iv { lo: -v[0].hi, hi: -v[0].lo, nan },
            Op::FAbs => {
                let a = v[0];
                if a.lo >= 0.0 {
                    a
                } else if a.hi <= 0.0 {
                    Iv { lo: -a.hi, hi: -a.lo, nan }
                } else {
                    Iv { lo: 0.0, hi: a.hi.max(-a.lo), nan }
                }
            }
            Op::FSqrt => {
                if v[0].hi < 0.0 {
                    return Iv::full();
                }
                Iv { lo: r(v[0].lo.max(0.0).sqrt()), hi: r(v[0].hi.sqrt()), nan: nan || v[0].lo < 0.0 }
            }
            Op::FRnd => Iv { lo: rnd(n.aux, v[0].lo), hi: rnd(n.aux, v[0].hi), nan },
            Op::FCvt => Iv { lo: r(v[0].lo), hi: r(v[0].hi), nan },
            Op::Fma => {
                let m = Node { op: Op::FMul, ..n.clone() };
                let p = self.fop(&Node { sort: Sort::F64, ..m }, &v[..2]);
                let lo = p.lo + v[2].lo;
                let hi = p.hi + v[2].hi;
                if lo.is_nan() || hi.is_nan() || !p.finite() || !v[2].finite() {
                    return Iv::full();
                }
                Iv { lo: r(next_down(lo)), hi: r(next_up(hi)), nan: nan || p.nan }
            }
            _ => Iv::full(),
        }
    }

    fn mkinfo(&self, n: &Node) -> Info {
        let s = n.sort;
        if s.is_f() {
            let iv = match n.op {
                Op::FAdd | Op::FMul | Op::FDiv | Op::FNeg | Op::FAbs | Op::FSqrt | Op::FRnd | Op::FCvt | Op::Fma => {
                    let v: Vec<Iv> = (0..n.n as usize).map(|k| self.fiv(n.a[k])).collect();
                    self.fop(n, &v)
                }
                Op::FRem => {
                    let (a, b) = (self.fiv(n.a[0]), self.fiv(n.a[1]));
                    if a.finite() && b.finite() && (b.lo > 0.0 || b.hi < 0.0) {
                        let m = b.mag().min(a.mag());
                        Iv::new(if a.lo < 0.0 { -m } else { 0.0 }, if a.hi > 0.0 { m } else { 0.0 })
                    } else {
                        Iv::full()
                    }
                }
                Op::Ite => {
                    let c = self.node(n.a[0]).clone();
                    let (a, b) = (n.a[1], n.a[2]);
                    let mut ia = self.fiv(a);
                    let mut ib = self.fiv(b);
                    if matches!(c.op, Op::FLt | Op::FLe | Op::FEq) {
                        let (x, y) = (c.a[0], c.a[1]);
                        let (ix, iy) = (self.fiv(x), self.fiv(y));
                        if self.sort(x) == s {
                            if c.op == Op::FEq {
                                let lo = ix.lo.max(iy.lo);
                                let hi = ix.hi.min(iy.hi);
                                if lo <= hi {
                                    let m = Iv::new(lo, hi);
                                    ia = self.iv_of(a, &[(x, m), (y, m)], 5);
                                }
                            } else {
                                // true: x <= y
                                let tx = Iv::new(ix.lo, ix.hi.min(iy.hi));
                                let ty = Iv::new(iy.lo.max(ix.lo), iy.hi);
                                if tx.lo <= tx.hi && ty.lo <= ty.hi {
                                    ia = self.iv_of(a, &[(x, tx), (y, ty)], 5);
                                }
                                // false: x >= y or nan
                                let fx = Iv { lo: ix.lo.max(iy.lo), hi: ix.hi, nan: ix.nan };
                                let fy = Iv { lo: iy.lo, hi: iy.hi.min(ix.hi), nan: iy.nan };
                                if !ix.nan && !iy.nan && fx.lo <= fx.hi && fy.lo <= fy.hi {
                                    ib = self.iv_of(b, &[(x, fx), (y, fy)], 5);
                                }
                            }
                        }
                    } else if c.op == Op::FIsNan && c.a[0] == b {
                        ib.nan = false;
                    }
                    ia.hull(ib)
                }
                Op::SToF => {
                    let bits = self.sort(n.a[0]).bits();
                    if bits <= 64 {
                        let (l, h) = self.biv(n.a[0]);
                        let half = 1u64 << (bits - 1);
                        let (l, h) = if h < half || l >= half {
                            (sext(l as u128, bits) as f64, sext(h as u128, bits) as f64)
                        } else {
                            (-(half as f64), half as f64)
                        };
                        Iv::new(rr(s, l), rr(s, h))
                    } else {
                        Iv::new(-1e39, 1e39)
                    }
                }
                Op::UToF => {
                    let bits = self.sort(n.a[0]).bits();
                    if bits <= 64 {
                        let (l, h) = self.biv(n.a[0]);
                        Iv::new(rr(s, l as f64), rr(s, h as f64))
                    } else {
                        Iv::new(0.0, f64::INFINITY)
                    }
                }
                _ => Iv::full(),
            };
            return Info::F(iv);
        }
        if let Sort::Bv(bits) = s {
            let bits = bits as u32;
            if bits > 64 {
                return Info::X;
            }
            let m = mask(bits) as u64;
            let g = |k: usize| self.biv(n.a[k]);
            let full = (0, m);
            let r = match n.op {
                Op::Add => {
                    let (a, b) = (g(0), g(1));
                    let lo = a.0 as u128 + b.0 as u128;
                    let hi = a.1 as u128 + b.1 as u128;
                    if hi <= m as u128 {
                        (lo as u64, hi as u64)
                    } else if lo > m as u128 {
                        ((lo - m as u128 - 1) as u64, (hi - m as u128 - 1) as u64)
                    } else {
                        full
                    }
                }
                Op::Sub => {
                    let (a, b) = (g(0), g(1));
                    if a.0 >= b.1 {
                        (a.0 - b.1, a.1 - b.0)
                    } else {
                        full
                    }
                }
                Op::Mul => {
                    let (a, b) = (g(0), g(1));
                    let hi = a.1 as u128 * b.1 as u128;
                    if hi <= m as u128 {
                        (a.0 * b.0, hi as u64)
                    } else {
                        full
                    }
                }
                Op::UDiv => {
                    let (a, b) = (g(0), g(1));
                    if b.0 > 0 {
                        (a.0 / b.1, a.1 / b.0)
                    } else {
                        full
                    }
                }
                Op::URem => {
                    let (a, b) = (g(0), g(1));
                    if b.0 > 0 {
                        if a.1 < b.0 {
                            a
                        } else {
                            (0, a.1.min(b.1 - 1))
                        }
                    } else {
                        full
                    }
                }
                Op::BAnd => {
                    let (a, b) = (g(0), g(1));
                    (0, a.1.min(b.1))
                }
                Op::BOr => {
                    let (a, b) = (g(0), g(1));
                    let mm = a.1 | b.1;
                    let hi = if mm == 0 { 0 } else { (u64::MAX >> mm.leading_zeros()).min(m) };
                    (a.0.max(b.0), hi)
                }
                Op::BXor => {
                    let (a, b) = (g(0), g(1));
                    let mm = a.1 | b.1;
                    (0, if mm == 0 { 0 } else { (u64::MAX >> mm.leading_zeros()).min(m) })
                }
                Op::Shl => {
                    let (a, b) = (g(0), g(1));
                    if b.0 == b.1 && b.0 < bits as u64 && ((a.1 as u128) << b.0) <= m as u128 {
                        (a.0 << b.0, a.1 << b.0)
                    } else {
                        full
                    }
                }
                Op::LShr => {
                    let (a, b) = (g(0), g(1));
                    if b.1 < bits as u64 {
                        (a.0 >> b.1, a.1 >> b.0)
                    } else {
                        (0, a.1)
                    }
                }
                Op::AShr => {
                    let (a, b) = (g(0), g(1));
                    if a.1 < (1u64 << (bits - 1)) && b.1 < bits as u64 {
                        (a.0 >> b.1, a.1 >> b.0)
                    } else {
                        full
                    }
                }
                Op::ZExt => g(0),
                Op::SExt => {
                    let a = g(0);
                    let ob = self.sort(n.a[0]).bits();
                    let half = 1u64 << (ob - 1);
                    if a.1 < half {
                        a
                    } else if a.0 >= half {
                        ((sext(a.0 as u128, ob) as u128 & mask(bits)) as u64, (sext(a.1 as u128, ob) as u128 & mask(bits)) as u64)
                    } else {
                        full
                    }
                }
                Op::Extract => {
                    if n.aux == 0 && self.sort(n.a[0]).bits() <= 64 {
                        let a = g(0);
                        if a.1 <= m {
                            a
                        } else {
                            full
                        }
                    } else {
                        full
                    }
                }
                Op::Ite => {
                    let (a, b) = (g(1), g(2));
                    let c = self.node(n.a[0]);
                    if (c.op == Op::Ult || c.op == Op::Ule) && self.sort(c.a[0]) == s {
                        let (x, y) = (self.biv(c.a[0]), self.biv(c.a[1]));
                        if c.a[0] == n.a[1] && c.a[1] == n.a[2] {
                            return Info::B(x.0.min(y.0), x.1.min(y.1));
                        }
                        if c.a[1] == n.a[1] && c.a[0] == n.a[2] {
                            return Info::B(x.0.max(y.0), x.1.max(y.1));
                        }
                    }
                    (a.0.min(b.0), a.1.max(b.1))
                }
                Op::FToU => {
                    let a = self.fiv(n.a[0]);
                    let lo = if a.nan { 0 } else { (a.lo as u128).min(m as u128) as u64 };
                    (lo, (a.hi as u128).min(m as u128) as u64)
                }
                Op::FToS => {
                    let a = self.fiv(n.a[0]);
                    let lo = if a.nan { a.lo.min(0.0) } else { a.lo };
                    let hi = if a.nan { a.hi.max(0.0) } else { a.hi };
                    let l = -(1i128 << (bits - 1));
                    let h = (1i128 << (bits - 1)) - 1;
                    let lo = (lo as i128).clamp(l, h);
                    let hi = (hi as i128).clamp(l, h);
                    if lo >= 0 || hi < 0 {
                        ((lo as u128 & mask(bits)) as u64, (hi as u128 & mask(bits)) as u64)
                    } else {
                        full
                    }
                }
                Op::Concat => {
                    let (a, b) = (g(0), g(1));
                    let sh = self.sort(n.a[1]).bits();
                    if a.0 == a.1 {
                        ((a.0 << sh) | b.0, (a.0 << sh) | b.1)
                    } else {
                        ((a.0 << sh), (a.1 << sh) | mask(sh) as u64)
                    }
                }
                Op::F2B => {
                    let a = self.fiv(n.a[0]);
                    // nonnegative floats are ordered like integers
                    if !a.nan && a.lo > 0.0 {
                        let fs = self.sort(n.a[0]);
                        (putf(fs, a.lo) as u64, putf(fs, a.hi) as u64)
                    } else {
                        full
                    }
                }
                _ => full,
            };
            return Info::B(r.0, r.1);
        }
        Info::X
    }

    /// Trailing zero bits known for a BV term.
    pub fn tz(&self, i: Id) -> u32 {
        let n = self.node(i);
        match n.op {
            Op::Const => {
                if n.aux == 0 {
                    64
                } else {
                    n.aux.trailing_zeros()
                }
            }
            Op::Shl => match self.cval(n.a[1]) {
                Some(c) => self.tz(n.a[0]) + c as u32,
                None => 0,
            },
            Op::Mul => self.tz(n.a[0]) + self.tz(n.a[1]),
            Op::Add | Op::Sub | Op::BOr | Op::BXor => self.tz(n.a[0]).min(self.tz(n.a[1])),
            Op::BAnd => self.tz(n.a[0]).max(self.tz(n.a[1])),
            Op::Ite => self.tz(n.a[1]).min(self.tz(n.a[2])),
            Op::ZExt | Op::SExt => self.tz(n.a[0]),
            _ => 0,
        }
    }

    pub fn mk(&mut self, op: Op, sort: Sort, aux: u128, args: &[Id]) -> Id {
        // constant folding
        if !args.is_empty() && op != Op::Uf {
            let mut all = true;
            let mut cv = [0u128; 3];
            let mut cs = [Sort::Bool; 3];
            for (k, a) in args.iter().enumerate() {
                let n = self.node(*a);
                if n.op != Op::Const {
                    all = false;
                    break;
                }
                cv[k] = n.aux;
                cs[k] = n.sort;
            }
            if all {
                let r = fold(op, sort, aux, &cs[..args.len()], &cv[..args.len()]);
                return self.cst(sort, r);
            }
        }
        let c0 = args.first().and_then(|a| self.cval(*a));
        let c1 = args.get(1).and_then(|a| self.cval(*a));
        let m = mask(sort.bits());
        match op {
            Op::Not => return self.not(args[0]),
            Op::And => {
                let (a, b) = (args[0], args[1]);
                if let Some(c) = c0 {
                    return if c != 0 { b } else { a };
                }
                if let Some(c) = c1 {
                    return if c != 0 { a } else { b };
                }
                if a == b {
                    return a;
                }
                let na = self.not(a);
                if na == b {
                    return self.bool(false);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::Or => {
                let (a, b) = (args[0], args[1]);
                if let Some(c) = c0 {
                    return if c != 0 { a } else { b };
                }
                if let Some(c) = c1 {
                    return if c != 0 { b } else { a };
                }
                if a == b {
                    return a;
                }
                let na = self.not(a);
                if na == b {
                    return self.bool(true);
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::Ite => {
                let (c, a, b) = (args[0], args[1], args[2]);
                if let Some(k) = c0 {
                    return if k != 0 { a } else { b };
                }
                if a == b {
                    return a;
                }
                let cn = self.node(c).clone();
                if cn.op == Op::Not {
                    return self.mk(Op::Ite, sort, 0, &[cn.a[0], b, a]);
                }
                if sort == Sort::Bool {
                    let ca = self.cval(a);
                    let cb = self.cval(b);
                    match (ca, cb) {
                        (Some(x), Some(_)) => return if x != 0 { c } else { self.not(c) },
                        (Some(x), None) => {
                            if x != 0 {
                                return self.or(c, b);
                            } else {
                                let nc = self.not(c);
                                return self.and(nc, b);
                            }
                        }
                        (None, Some(y)) => {
                            if y != 0 {
                                let nc = self.not(c);
                                return self.or(nc, a);
                            } else {
                                return self.and(c, a);
                            }
                        }
                        _ => {}
                    }
                }
                // nested same condition
                let an = self.node(a).clone();
                if an.op == Op::Ite && an.a[0] == c {
                    return self.mk(Op::Ite, sort, 0, &[c, an.a[1], b]);
                }
                let bn = self.node(b).clone();
                if bn.op == Op::Ite && bn.a[0] == c {
                    return self.mk(Op::Ite, sort, 0, &[c, a, bn.a[2]]);
                }
                // min/max canonical form: max(x,y): ite(x<y, y, x); treat < and <= alike when result same
                if sort.is_f() && (cn.op == Op::FLe || cn.op == Op::FLt) {
                    let (x, y) = (cn.a[0], cn.a[1]);
                    let nonan = !self.fiv(x).nan && !self.fiv(y).nan;
                    if nonan && ((a == x && b == y) || (a == y && b == x)) {
                        // canonical: c = FLt(p,q) with p<q by id; min: ite(c,p,q), max: ite(c,q,p)
                        let ismin = a == x;
                        let (p, q) = if x < y { (x, y) } else { (y, x) };
                        let cc = self.mk(Op::FLt, Sort::Bool, 0, &[p, q]);
                        if self.cval(cc).is_some() {
                            return if (self.cval(cc).unwrap() != 0) == ismin { p } else { q };
                        }
                        return if ismin { self.raw(Op::Ite, sort, 0, &[cc, p, q]) } else { self.raw(Op::Ite, sort, 0, &[cc, q, p]) };
                    }
                }
                return self.raw(op, sort, aux, args);
            }
            Op::Eq => {
                let (a, b) = (args[0], args[1]);
                if a == b {
                    return self.bool(true);
                }
                if self.sort(a) == Sort::Bool {
                    if let Some(c) = c0 {
                        return if c != 0 { b } else { self.not(b) };
                    }
                    if let Some(c) = c1 {
                        return if c != 0 { a } else { self.not(a) };
                    }
                }
                let (a, b) = if c0.is_some() { (b, a) } else { (a, b) };
                if let Some(k) = self.cval(b) {
                    let n = self.node(a).clone();
                    if matches!(n.op, Op::Add | Op::Sub | Op::Extract) {
                        if let Some((s0, len)) = self.arc(a, 6) {
                            let m = mask(n.sort.bits());
                            if k.wrapping_sub(s0) & m > len {
                                return self.bool(false);
                            }
                        }
                    }
                    match n.op {
                        Op::Ite => {
                            let x = self.cval(n.a[1]);
                            let y = self.cval(n.a[2]);
                            if x.is_some() || y.is_some() {
                                let e1 = self.eq(n.a[1], b);
                                let e2 = self.eq(n.a[2], b);
                                return self.ite(n.a[0], e1, e2);
                            }
                        }
                        Op::ZExt => {
                            let s0 = self.sort(n.a[0]);
                            if k > mask(s0.bits()) {
                                return self.bool(false);
                            }
                            let kk = self.cst(s0, k);
                            return self.eq(n.a[0], kk);
                        }
                        Op::Concat => {
                            let (sh, sl) = (self.sort(n.a[0]), self.sort(n.a[1]));
                            let kh = self.cst(sh, k >> sl.bits());
                            let kl = self.cst(sl, k & mask(sl.bits()));
                            let e1 = self.eq(n.a[0], kh);
                            let e2 = self.eq(n.a[1], kl);
                            return self.and(e1, e2);
                        }
                        Op::BXor => {
                            if let Some(c) = self.cval(n.a[1]) {
                                let s = self.sort(a);
                                let kk = self.cst(s, c ^ k);
                                return self.eq(n.a[0], kk);
                            }
                        }
                        Op::Add => {
                            if let Some(c) = self.cval(n.a[1]) {
                                let s = self.sort(a);
                                let kk = self.cst(s, k.wrapping_sub(c));
                                return self.eq(n.a[0], kk);
                            }
                        }
                        Op::Mul => {
                            if let Some(c) = self.cval(n.a[1]) {
                                let bits = n.sort.bits();
                                if bits <= 64 && c != 0 && self.biv(n.a[0]).1 as u128 * c <= mask(bits) {
                                    if k % c != 0 {
                                        return self.bool(false);
                                    }
                                    let kk = self.cst(n.sort, k / c);
                                    return self.eq(n.a[0], kk);
                                }
                            }
                        }
                        Op::FToS => {
                            let iv = self.fiv(n.a[0]);
                            let v = sext(k, n.sort.bits()) as f64;
                            if !iv.nan && (v > iv.hi || v < iv.lo.trunc()) {
                                return self.bool(false);
                            }
                        }
                        Op::F2B => {
                            let fs = self.sort(n.a[0]);
                            let x = getf(fs, k);
                            if x != 0.0 && !x.is_nan() {
                                let kk = self.cst(fs, k);
                                return self.mk(Op::FEq, Sort::Bool, 0, &[n.a[0], kk]);
                            }
                        }
                        _ => {}
                    }
                }
                // injective functions on both sides
                if let Some((x, y)) = self.peel(a, b) {
                    return self.eq(x, y);
                }
                let (a, b) = if a < b || self.cval(b).is_some() { (a, b) } else { (b, a) };
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::Add | Op::Mul | Op::BAnd | Op::BOr | Op::BXor => {
                // constants to the right
                let (a, b) = if c0.is_some() || (c1.is_none() && args[0] > args[1]) { (args[1], args[0]) } else { (args[0], args[1]) };
                let cb = self.cval(b);
                if let Some(k) = cb {
                    match op {
                        Op::Add if k == 0 => return a,
                        Op::Mul if k == 0 => return b,
                        Op::Mul if k == 1 => return a,
                        Op::BAnd if k == 0 => return b,
                        Op::BAnd if k == m => return a,
                        Op::BOr if k == 0 => return a,
                        Op::BOr if k == m => return b,
                        Op::BXor if k == 0 => return a,
                        _ => {}
                    }
                    let n = self.node(a).clone();
                    if op == Op::Add && n.op == Op::Add {
                        if let Some(k2) = self.cval(n.a[1]) {
                            let kk = self.cst(sort, k.wrapping_add(k2));
                            return self.mk(Op::Add, sort, 0, &[n.a[0], kk]);
                        }
                    }
                    if op == Op::BAnd && n.op == Op::BAnd {
                        if let Some(k2) = self.cval(n.a[1]) {
                            let kk = self.cst(sort, k & k2);
                            return self.mk(Op::BAnd, sort, 0, &[n.a[0], kk]);
                        }
                    }
                    if op == Op::BXor && n.op == Op::BXor {
                        if let Some(k2) = self.cval(n.a[1]) {
                            let kk = self.cst(sort, k ^ k2);
                            return self.mk(Op::BXor, sort, 0, &[n.a[0], kk]);
                        }
                    }
                    // and with contiguous low mask that covers the known range
                    if op == Op::BAnd && (k & (k + 1)) == 0 && sort.bits() <= 64 {
                        let (_, hi) = self.biv(a);
                        if hi as u128 <= k {
                            return a;
                        }
                    }
                    // sign-bit operations on floats
                    if n.op == Op::F2B {
                        let fs = self.sort(n.a[0]);
                        let sb = 1u128 << (fs.bits() - 1);
                        if op == Op::BAnd && k == (m >> 1) {
                            let r = self.mk(Op::FAbs, fs, 0, &[n.a[0]]);
                            return self.mk(Op::F2B, sort, 0, &[r]);
                        }
                        if op == Op::BXor && k == sb {
                            let r = self.fneg(n.a[0]);
                            return self.mk(Op::F2B, sort, 0, &[r]);
                        }
                        if op == Op::BOr && k == sb {
                            let r = self.mk(Op::FAbs, fs, 0, &[n.a[0]]);
                            let r = self.fneg(r);
                            return self.mk(Op::F2B, sort, 0, &[r]);
                        }
                        if op == Op::BAnd && k == sb {
                            // sign bit: zero counts as positive (sign of zero is not observable)
                            let iv = self.fiv(n.a[0]);
                            if !iv.nan {
                                let z = self.fcst(fs, 0.0);
                                let c = self.mk(Op::FLt, Sort::Bool, 0, &[n.a[0], z]);
                                let s1 = self.cst(sort, sb);
                                let s0 = self.cst(sort, 0);
                                return self.ite(c, s1, s0);
                            }
                        }
                    }
                    // a 32-bit value repeated in both halves
                    if op == Op::Mul && k == 0x1_0000_0001 && sort.bits() == 64 && n.op == Op::ZExt && self.sort(n.a[0]).bits() == 32 {
                        return self.mk(Op::Concat, sort, 0, &[n.a[0], n.a[0]]);
                    }
                    // low bits of modular arithmetic
                    if op == Op::BAnd && (k & (k + 1)) == 0 && k != m && sort.bits() <= 64 && matches!(n.op, Op::Add | Op::Sub | Op::Mul) {
                        let j = (128 - k.leading_zeros()) as u8;
                        let x = self.mk(Op::Extract, Sort::Bv(j), 0, &[a]);
                        return self.mk(Op::ZExt, sort, 0, &[x]);
                    }
                    // push constant ops into ite with a constant branch
                    if n.op == Op::Ite && (self.cval(n.a[1]).is_some() || self.cval(n.a[2]).is_some()) {
                        let x = self.mk(op, sort, 0, &[n.a[1], b]);
                        let y = self.mk(op, sort, 0, &[n.a[2], b]);
                        return self.ite(n.a[0], x, y);
                    }
                }
                if a == b {
                    match op {
                        Op::BAnd | Op::BOr => return a,
                        Op::BXor => return self.cst(sort, 0),
                        _ => {}
                    }
                }
                // mask ites
                if matches!(op, Op::BAnd | Op::BOr | Op::BXor) {
                    for (x, y) in [(a, b), (b, a)] {
                        let n = self.node(x).clone();
                        if n.op == Op::Ite {
                            let k1 = self.cval(n.a[1]);
                            let k2 = self.cval(n.a[2]);
                            let triv = |k: Option<u128>| match k {
                                Some(k) => k == 0 || (k == m && op != Op::BXor),
                                None => false,
                            };
                            if (triv(k1) && triv(k2)) || (op != Op::BAnd && (triv(k1) || triv(k2))) {
                                let p = self.mk(op, sort, 0, &[n.a[1], y]);
                                let q = self.mk(op, sort, 0, &[n.a[2], y]);
                                return self.ite(n.a[0], p, q);
                            }
                            let ny = self.node(y).clone();
                            if ny.op == Op::Ite && ny.a[0] == n.a[0] {
                                let p = self.mk(op, sort, 0, &[n.a[1], ny.a[1]]);
                                let q = self.mk(op, sort, 0, &[n.a[2], ny.a[2]]);
                                return self.ite(n.a[0], p, q);
                            }
                        }
                    }
                }
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::Sub => {
                if args[0] == args[1] {
                    return self.cst(sort, 0);
                }
                if let Some(k) = c1 {
                    let nk = self.cst(sort, (!k).wrapping_add(1));
                    return self.mk(Op::Add, sort, 0, &[args[0], nk]);
                }
                // (a + c) - a
                let n = self.node(args[0]).clone();
                if n.op == Op::Add && n.a[0] == args[1] {
                    return n.a[1];
                }
                if n.op == Op::Add && n.a[1] == args[1] {
                    return n.a[0];
                }
            }
            Op::URem if sort.bits() <= 64 => {
                if let Some(k) = c1 {
                    if (self.biv(args[0]).1 as u128) < k {
                        return args[0];
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = c1 {
                    if k == 0 {
                        return args[0];
                    }
                    let n = self.node(args[0]).clone();
                    if n.op == Op::Ite && (self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some()) {
                        let x = self.mk(op, sort, 0, &[n.a[1], args[1]]);
                        let y = self.mk(op, sort, 0, &[n.a[2], args[1]]);
                        return self.ite(n.a[0], x, y);
                    }
                    if k >= sort.bits() as u128 && op != Op::AShr {
                        return self.cst(sort, 0);
                    }
                    // concat shift
                    if op == Op::LShr && n.op == Op::Concat {
                        let lb = self.sort(n.a[1]).bits();
                        if k == lb as u128 {
                            return self.mk(Op::ZExt, sort, 0, &[n.a[0]]);
                        }
                    }
                    // ashr of float sign bit -> mask
                    if op == Op::AShr && k == sort.bits() as u128 - 1 && n.op == Op::F2B && !self.fiv(n.a[0]).nan {
                        let fs = self.sort(n.a[0]);
                        let z = self.fcst(fs, 0.0);
                        let c = self.mk(Op::FLt, Sort::Bool, 0, &[n.a[0], z]);
                        let s1 = self.cst(sort, m);
                        let s0 = self.cst(sort, 0);
                        return self.ite(c, s1, s0);
                    }
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                if args[0] == args[1] {
                    return self.bool(op == Op::Ule || op == Op::Sle);
                }
                // push through ite with constant branches
                for k in 0..2 {
                    if self.cval(args[1 - k]).is_some() {
                        let n = self.node(args[k]).clone();
                        if n.op == Op::Ite && self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some() {
                            let (x, y) = if k == 0 {
                                (self.mk(op, sort, 0, &[n.a[1], args[1]]), self.mk(op, sort, 0, &[n.a[2], args[1]]))
                            } else {
                                (self.mk(op, sort, 0, &[args[0], n.a[1]]), self.mk(op, sort, 0, &[args[0], n.a[2]]))
                            };
                            return self.ite(n.a[0], x, y);
                        }
                    }
                }
                // sign test on float bits
                let n0 = self.node(args[0]).clone();
                if op == Op::Slt && n0.op == Op::F2B && c1 == Some(0) && !self.fiv(n0.a[0]).nan {
                    let fs = self.sort(n0.a[0]);
                    let z = self.fcst(fs, 0.0);
                    return self.mk(Op::FLt, Sort::Bool, 0, &[n0.a[0], z]);
                }
                let n1 = self.node(args[1]).clone();
                if op == Op::Slt && n1.op == Op::F2B && c0 == Some(mask(self.sort(args[0]).bits())) && !self.fiv(n1.a[0]).nan {
                    // -1 < bits  <=> sign clear
                    let fs = self.sort(n1.a[0]);
                    let z = self.fcst(fs, 0.0);
                    return self.mk(Op::FLe, Sort::Bool, 0, &[z, n1.a[0]]);
                }
            }
            Op::ZExt | Op::SExt => {
                if self.sort(args[0]) == sort {
                    return args[0];
                }
                let n = self.node(args[0]).clone();
                if n.op == Op::Ite && self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some() {
                    let x = self.mk(op, sort, 0, &[n.a[1]]);
                    let y = self.mk(op, sort, 0, &[n.a[2]]);
                    return self.ite(n.a[0], x, y);
                }
                if n.op == Op::ZExt {
                    return self.mk(Op::ZExt, sort, 0, &[n.a[0]]);
                }
                if op == Op::SExt && sort.bits() <= 64 {
                    let b = self.sort(args[0]).bits();
                    if self.biv(args[0]).1 < (1u64 << (b - 1)) {
                        return self.mk(Op::ZExt, sort, 0, &[args[0]]);
                    }
                }
            }
            Op::Extract => {
                let s0 = self.sort(args[0]);
                if s0 == sort {
                    return args[0];
                }
                let n = self.node(args[0]).clone();
                match n.op {
                    Op::Extract => return self.mk(Op::Extract, sort, aux + n.aux, &[n.a[0]]),
                    Op::Concat => {
                        let lb = self.sort(n.a[1]).bits() as u128;
                        if aux >= lb {
                            return self.mk(Op::Extract, sort, aux - lb, &[n.a[0]]);
                        }
                        if aux + sort.bits() as u128 <= lb {
                            return self.mk(Op::Extract, sort, aux, &[n.a[1]]);
                        }
                    }
                    Op::ZExt => {
                        let ib = self.sort(n.a[0]).bits() as u128;
                        if aux >= ib {
                            return self.cst(sort, 0);
                        }
                        if aux + sort.bits() as u128 <= ib {
                            return self.mk(Op::Extract, sort, aux, &[n.a[0]]);
                        }
                        if aux == 0 {
                            return self.mk(Op::ZExt, sort, 0, &[n.a[0]]);
                        }
                    }
                    Op::SExt => {
                        let ib = self.sort(n.a[0]).bits() as u128;
                        if aux + sort.bits() as u128 <= ib {
                            return self.mk(Op::Extract, sort, aux, &[n.a[0]]);
                        }
                    }
                    Op::Ite => {
                        if self.cval(n.a[1]).is_some() || self.cval(n.a[2]).is_some() || self.node(n.a[1]).op == Op::Concat {
                            let x = self.mk(op, sort, aux, &[n.a[1]]);
                            let y = self.mk(op, sort, aux, &[n.a[2]]);
                            return self.ite(n.a[0], x, y);
                        }
                    }
                    Op::BAnd | Op::BOr | Op::BXor => {
                        let x = self.mk(Op::Extract, sort, aux, &[n.a[0]]);
                        let y = self.mk(Op::Extract, sort, aux, &[n.a[1]]);
                        return self.mk(n.op, sort, 0, &[x, y]);
                    }
                    Op::Add | Op::Mul | Op::Sub if aux == 0 => {
                        let x = self.mk(Op::Extract, sort, 0, &[n.a[0]]);
                        let y = self.mk(Op::Extract, sort, 0, &[n.a[1]]);
                        return self.mk(n.op, sort, 0, &[x, y]);
                    }
                    Op::LShr => {
                        if let Some(k) = self.cval(n.a[1]) {
                            if aux + k + sort.bits() as u128 <= s0.bits() as u128 {
                                return self.mk(Op::Extract, sort, aux + k, &[n.a[0]]);
                            }
                        }
                    }
                    Op::Shl => {
                        if let Some(k) = self.cval(n.a[1]) {
                            if aux >= k {
                                return self.mk(Op::Extract, sort, aux - k, &[n.a[0]]);
                            }
                            if aux + sort.bits() as u128 <= k {
                                return self.cst(sort, 0);
                            }
                        }
                    }
                    _ => {}
                }
            }
            Op::Concat => {
                // adjacent extracts
                let x = self.node(args[0]).clone();
                let y = self.node(args[1]).clone();
                if x.op == Op::Extract && y.op == Op::Extract && x.a[0] == y.a[0] && x.aux == y.aux + y.sort.bits() as u128 {
                    return self.mk(Op::Extract, sort, y.aux, &[x.a[0]]);
                }
                if let Some(0) = c0 {
                    return self.mk(Op::ZExt, sort, 0, &[args[1]]);
                }
            }
            Op::FAdd => {
                let (mut a, mut b) = (args[0], args[1]);
                if let Some(k) = self.cval(a) {
                    if getf(sort, k) == 0.0 {
                        return b;
                    }
                }
                if let Some(k) = self.cval(b) {
                    if getf(sort, k) == 0.0 {
                        return a;
                    }
                }
                // x + (-x)
                let na = self.fneg(a);
                if na == b && self.fiv(a).finite() {
                    return self.fcst(sort, 0.0);
                }
                // both negated
                let xa = self.node(a).clone();
                let xb = self.node(b).clone();
                if xa.op == Op::FNeg && (xb.op == Op::FNeg) {
                    let s = self.fadd(xa.a[0], xb.a[0]);
                    return self.fneg(s);
                }
                if xa.op == Op::FNeg && xb.op == Op::Const {
                    let nb = self.fneg(b);
                    let s = self.fadd(xa.a[0], nb);
                    return self.fneg(s);
                }
                if xb.op == Op::FNeg && xa.op == Op::Const {
                    let nb = self.fneg(a);
                    let s = self.fadd(xb.a[0], nb);
                    return self.fneg(s);
                }
                if b < a {
                    std::mem::swap(&mut a, &mut b);
                }
                // canonical sign: smaller-id operand positive
                let xa = self.node(a).clone();
                let xb = self.node(b).clone();
                if xa.op == Op::FNeg && xb.op != Op::FNeg {
                    // -(x) + b == -(x - b): keep the form with the smaller core id positive
                    if xa.a[0] < b {
                        let nb = self.fneg(b);
                        let (p, q) = if xa.a[0] < nb { (xa.a[0], nb) } else { (nb, xa.a[0]) };
                        let r = self.raw(Op::FAdd, sort, 0, &[p, q]);
                        return self.fneg(r);
                    }
                } else if xb.op == Op::FNeg && xa.op != Op::FNeg && xb.a[0] < a {
                    let na = self.fneg(a);
                    let (p, q) = if xb.a[0] < na { (xb.a[0], na) } else { (na, xb.a[0]) };
                    let r = self.raw(Op::FAdd, sort, 0, &[p, q]);
                    return self.fneg(r);
                }
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::FMul => {
                let (mut a, mut b) = (args[0], args[1]);
                for (x, y) in [(a, b), (b, a)] {
                    if let Some(k) = self.cval(x) {
                        let f = getf(sort, k);
                        if f == 1.0 {
                            return y;
                        }
                        if f == -1.0 {
                            return self.fneg(y);
                        }
                        if f == 0.0 && self.fiv(y).finite() {
                            return self.fcst(sort, 0.0);
                        }
                    }
                }
                let xa = self.node(a).clone();
                let xb = self.node(b).clone();
                if xa.op == Op::FNeg {
                    let r = self.mk(Op::FMul, sort, 0, &[xa.a[0], b]);
                    return self.fneg(r);
                }
                if xb.op == Op::FNeg {
                    let r = self.mk(Op::FMul, sort, 0, &[a, xb.a[0]]);
                    return self.fneg(r);
                }
                for (x, y) in [(a, b), (b, a)] {
                    if let Some(k) = self.cval(x) {
                        let f = getf(sort, k);
                        if f < 0.0 {
                            let nk = self.fcst(sort, -f);
                            let r = self.mk(Op::FMul, sort, 0, &[nk, y]);
                            return self.fneg(r);
                        }
                    }
                }
                if b < a {
                    std::mem::swap(&mut a, &mut b);
                }
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::FDiv => {
                if let Some(k) = c1 {
                    let f = getf(sort, k);
                    // exact reciprocal
                    let (_, e) = frexp(f);
                    if f.abs() == libm_exp2(e as f64) && e > -100 && e < 100 {
                        let r = self.fcst(sort, 1.0 / f);
                        return self.mk(Op::FMul, sort, 0, &[args[0], r]);
                    }
                }
                let xa = self.node(args[0]).clone();
                let xb = self.node(args[1]).clone();
                if xa.op == Op::FNeg {
                    let r = self.mk(Op::FDiv, sort, 0, &[xa.a[0], args[1]]);
                    return self.fneg(r);
                }
                if xb.op == Op::FNeg {
                    let r = self.mk(Op::FDiv, sort, 0, &[args[0], xb.a[0]]);
                    return self.fneg(r);
                }
                if let Some(k) = c0 {
                    if getf(sort, k) == 0.0 {
                        let iv = self.fiv(args[1]);
                        if !iv.nan && (iv.lo > 0.0 || iv.hi < 0.0) {
                            return self.fcst(sort, 0.0);
                        }
                    }
                }
            }
            Op::FNeg => {
                let n = self.node(args[0]).clone();
                if n.op == Op::FNeg {
                    return n.a[0];
                }
                if n.op == Op::Ite && (self.cval(n.a[1]).is_some() || self.cval(n.a[2]).is_some()) {
                    let x = self.fneg(n.a[1]);
                    let y = self.fneg(n.a[2]);
                    return self.ite(n.a[0], x, y);
                }
            }
            Op::FAbs => {
                let n = self.node(args[0]).clone();
                if n.op == Op::FNeg || n.op == Op::FAbs {
                    return self.mk(Op::FAbs, sort, 0, &[n.a[0]]);
                }
                let iv = self.fiv(args[0]);
                if !iv.nan && iv.lo >= 0.0 {
                    return args[0];
                }
                if !iv.nan && iv.hi <= 0.0 {
                    return self.fneg(args[0]);
                }
                if (n.op == Op::FMul || n.op == Op::FDiv) && (self.cval(n.a[0]).is_some() || self.cval(n.a[1]).is_some()) {
                    let x = self.mk(Op::FAbs, sort, 0, &[n.a[0]]);
                    let y = self.mk(Op::FAbs, sort, 0, &[n.a[1]]);
                    return self.mk(n.op, sort, 0, &[x, y]);
                }
            }
            Op::SToF | Op::UToF => {
                // int conversion of a float and back is rounding toward zero
                let n = self.node(args[0]).clone();
                let mut inner = n.clone();
                let mut zx = false;
                if n.op == Op::ZExt {
                    inner = self.node(n.a[0]).clone();
                    zx = true;
                }
                if inner.op == Op::FToS || inner.op == Op::FToU {
                    let x = inner.a[0];
                    let xs = self.sort(x);
                    let iv = self.fiv(x);
                    let b = inner.sort.bits();
                    let lim = 2f64.powi(b as i32 - 1).min(if sort == Sort::F32 { 16777216.0 } else { 9007199254740992.0 });
                    let neg_ok = inner.op == Op::FToS && op == Op::SToF && !zx;
                    if !iv.nan && iv.hi < lim && (iv.lo >= 0.0 || (neg_ok && iv.lo > -lim)) {
                        let r = self.mk(Op::FRnd, xs, 2, &[x]);
                        return self.mk(Op::FCvt, sort, 0, &[r]);
                    }
                }
                // unsigned and signed conversions agree on small values
                if op == Op::SToF {
                    let b = self.sort(args[0]).bits();
                    if b <= 64 && self.biv(args[0]).1 < 1u64 << (b - 1) {
                        return self.mk(Op::UToF, sort, 0, args);
                    }
                }
                if op == Op::UToF && n.op == Op::ZExt {
                    return self.mk(Op::UToF, sort, 0, &[n.a[0]]);
                }
            }
            Op::FToS | Op::FToU => {
                let iv = self.fiv(args[0]);
                if !iv.nan && iv.lo >= 0.0 {
                    let b = sort.bits();
                    let lim31 = 2147483648.0;
                    if b > 32 && iv.hi < lim31 {
                        let x = self.mk(Op::FToU, Sort::Bv(32), 0, args);
                        return self.mk(Op::ZExt, sort, 0, &[x]);
                    }
                    if op == Op::FToS && b == 32 && iv.hi < lim31 {
                        return self.mk(Op::FToU, sort, 0, args);
                    }
                }
                let n = self.node(args[0]).clone();
                if n.op == Op::FCvt && n.sort == Sort::F64 {
                    return self.mk(op, sort, aux, &[n.a[0]]);
                }
                if n.op == Op::FRnd && n.aux == 2 {
                    return self.mk(op, sort, aux, &[n.a[0]]);
                }
                if n.op == Op::FRnd && n.aux == 0 && !iv.nan && self.fiv(n.a[0]).lo >= 0.0 {
                    return self.mk(op, sort, aux, &[n.a[0]]);
                }
            }
            Op::FRnd => {
                let n = self.node(args[0]).clone();
                if n.op == Op::FRnd || n.op == Op::SToF || n.op == Op::UToF {
                    return args[0];
                }
                // floor and truncation agree on non-negative values
                if aux == 2 && self.fiv(args[0]).lo >= 0.0 && !self.fiv(args[0]).nan {
                    return self.mk(Op::FRnd, sort, 0, args);
                }
                if n.op == Op::FCvt && n.sort == Sort::F64 {
                    let x = self.mk(Op::FRnd, Sort::F32, aux, &[n.a[0]]);
                    return self.mk(Op::FCvt, Sort::F64, 0, &[x]);
                }
            }
            Op::FCvt => {
                let s0 = self.sort(args[0]);
                if s0 == sort {
                    return args[0];
                }
                let n = self.node(args[0]).clone();
                if sort == Sort::F32 && n.op == Op::FCvt {
                    return n.a[0];
                }
                if n.op == Op::FNeg {
                    let x = self.mk(Op::FCvt, sort, 0, &[n.a[0]]);
                    return self.fneg(x);
                }
                if sort == Sort::F32 && n.op == Op::FAbs {
                    let x = self.mk(Op::FCvt, sort, 0, &[n.a[0]]);
                    return self.mk(Op::FAbs, sort, 0, &[x]);
                }
            }
            Op::FLt | Op::FLe => {
                if args[0] == args[1] {
                    if op == Op::FLt {
                        return self.bool(false);
                    }
                    if !self.fiv(args[0]).nan {
                        return self.bool(true);
                    }
                }
                let x = self.node(args[0]).clone();
                let y = self.node(args[1]).clone();
                if x.op == Op::FNeg && y.op == Op::FNeg {
                    return self.mk(op, sort, 0, &[y.a[0], x.a[0]]);
                }
                if x.op == Op::FNeg && y.op == Op::Const {
                    let ny = self.fneg(args[1]);
                    return self.mk(op, sort, 0, &[ny, x.a[0]]);
                }
                if y.op == Op::FNeg && x.op == Op::Const {
                    let nx = self.fneg(args[0]);
                    return self.mk(op, sort, 0, &[y.a[0], nx]);
                }
                if x.op == Op::FCvt && y.op == Op::FCvt && x.sort == Sort::F64 {
                    return self.mk(op, sort, 0, &[x.a[0], y.a[0]]);
                }
            }
            Op::FEq => {
                let (a, b) = (args[0], args[1]);
                if a == b && !self.fiv(a).nan {
                    return self.bool(true);
                }
                let x = self.node(a).clone();
                let y = self.node(b).clone();
                if x.op == Op::FCvt && y.op == Op::FCvt && x.sort == Sort::F64 {
                    return self.mk(op, sort, 0, &[x.a[0], y.a[0]]);
                }
                // sums of squares and differences compared with zero
                for (p, q) in [(&x, b), (&y, a)] {
                    if self.cval(q).map(|c| getf(p.sort, c)) != Some(0.0) {
                        continue;
                    }
                    if p.op == Op::FAdd {
                        let (u, v) = (p.a[0], p.a[1]);
                        let (iu, iv) = (self.fiv(u), self.fiv(v));
                        if iu.finite() && iv.finite() && iu.lo >= 0.0 && iv.lo >= 0.0 {
                            let c = self.mk(op, sort, 0, &[u, q]);
                            let d = self.mk(op, sort, 0, &[v, q]);
                            return self.and(c, d);
                        }
                        if iu.finite() && iv.finite() {
                            let nv = self.fneg(v);
                            if self.node(nv).op != Op::FNeg {
                                return self.mk(op, sort, 0, &[u, nv]);
                            }
                            let nu = self.fneg(u);
                            return self.mk(op, sort, 0, &[nu, v]);
                        }
                    }
                    if p.op == Op::FMul && p.a[0] == p.a[1] && p.sort == Sort::F64 {
                        let d = self.node(p.a[0]).clone();
                        if d.op == Op::FAdd && self.from_f32(d.a[0]) && self.from_f32(d.a[1]) {
                            return self.mk(op, sort, 0, &[p.a[0], q]);
                        }
                    }
                }
                for (p, q) in [(&x, b), (&y, a)] {
                    if let (Op::FCvt, Sort::F64, Some(c)) = (p.op, p.sort, self.cval(q)) {
                        let c = f64::from_bits(c as u64);
                        if (c as f32) as f64 == c {
                            let k = self.fcst(Sort::F32, c);
                            return self.mk(op, sort, 0, &[p.a[0], k]);
                        }
                        return self.bool(false);
                    }
                }
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                return self.raw(op, sort, aux, &[a, b]);
            }
            Op::F2B => {
                let n = self.node(args[0]).clone();
                if n.op == Op::B2F {
                    return n.a[0];
                }
                if n.op == Op::Ite && self.cval(n.a[1]).is_some() && self.cval(n.a[2]).is_some() {
                    let x = self.mk(op, sort, 0, &[n.a[1]]);
                    let y = self.mk(op, sort, 0, &[n.a[2]]);
                    return self.ite(n.a[0], x, y);
                }
            }
            Op::B2F => {
                let n = self.node(args[0]).clone();
                if n.op == Op::F2B {
                    return n.a[0];
                }
                if n.op == Op::Ite {
                    let x = self.mk(op, sort, 0, &[n.a[1]]);
                    let y = self.mk(op, sort, 0, &[n.a[2]]);
                    return self.ite(n.a[0], x, y);
                }
            }
            _ => {}
        }
        self.raw(op, sort, aux, args)
    }

    /// Circular interval of a bit-vector term: values are start, start+1, ..., start+len (mod 2^bits).
    fn arc(&self, i: Id, depth: u32) -> Option<(u128, u128)> {
        let n = self.node(i);
        let b = n.sort.bits();
        if b > 64 {
            return None;
        }
        let m = mask(b);
        let plain = || {
            let (lo, hi) = self.biv(i);
            Some((lo as u128, (hi - lo) as u128))
        };
        if depth == 0 {
            return plain();
        }
        let r = match n.op {
            Op::Add | Op::Sub => {
                let (s1, l1) = self.arc(n.a[0], depth - 1)?;
                let (s2, l2) = self.arc(n.a[1], depth - 1)?;
                if l1 + l2 > m {
                    return None;
                }
                let s = if n.op == Op::Add { s1 + s2 } else { s1.wrapping_sub(s2 + l2) };
                Some((s & m, l1 + l2))
            }
            Op::Extract if n.aux == 0 => {
                let (s, l) = self.arc(n.a[0], depth - 1)?;
                if l > m {
                    return None;
                }
                Some((s & m, l))
            }
            _ => plain(),
        };
        let p = plain();
        match (r, p) {
            (Some((_, l)), Some((_, pl))) if pl < l => p,
            (None, p) => p,
            (r, _) => r,
        }
    }

    /// Ids reachable from the roots, in topological (ascending) order.
    pub fn cone(&self, roots: &[Id]) -> Vec<Id> {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<Id> = roots.to_vec();
        while let Some(i) = st.pop() {
            if seen.insert(i) {
                let n = self.node(i);
                for k in 0..n.n as usize {
                    st.push(n.a[k]);
                }
            }
        }
        let mut v: Vec<Id> = seen.into_iter().collect();
        v.sort();
        v
    }

    pub fn show(&self, i: Id, depth: u32) -> String {
        let n = self.node(i);
        match n.op {
            Op::Const => {
                if n.sort.is_f() {
                    format!("{:?}", getf(n.sort, n.aux))
                } else {
                    format!("{}", n.aux)
                }
            }
            Op::Var => self.vars[n.aux as usize].name.clone(),
            _ => {
                if depth == 0 {
                    return format!("#{}", i);
                }
                let mut s = if n.op == Op::Uf { self.ufs[n.aux as usize].rsplit("4math").next().unwrap_or("uf").to_string() } else { format!("{:?}", n.op) };
                s.push('(');
                for k in 0..n.n as usize {
                    if k > 0 {
                        s.push_str(", ");
                    }
                    s.push_str(&self.show(n.a[k], depth - 1));
                }
                s.push(')');
                s
            }
        }
    }
}

fn rr(s: Sort, x: f64) -> f64 {
    if s == Sort::F32 {
        x as f32 as f64
    } else {
        x
    }
}
pub fn next_up(x: f64) -> f64 {
    x.next_up()
}
pub fn next_down(x: f64) -> f64 {
    x.next_down()
}
fn frexp(f: f64) -> (f64, i32) {
    if f == 0.0 || !f.is_finite() {
        return (f, 10000);
    }
    let e = f.abs().log2().round() as i32;
    (0.0, e)
}
fn libm_exp2(x: f64) -> f64 {
    x.exp2()
}
