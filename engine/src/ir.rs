//! LLVM IR (textual) parser and in-memory representation.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Ptr => 8,
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => ((*n as u64) + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem on {:?}", self),
        }
    }
    pub fn scalar(&self) -> Ty {
        match self {
            Ty::Vec(_, t) => (**t).clone(),
            t => t.clone(),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
}

/// Runtime value. Scalars are concrete bits, or a term.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    T(u32),
    W(Rc<u128>),
    Agg(Rc<[V]>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IP {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FP {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fun(u32),
    Ptr(Opd),
    Asm(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(IP, Ty, Opd, Opd),
    FCmp(FP, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Rmw(Rc<str>, Ty, Opd, Opd),
    Fence,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    Freeze(Opd),
    Call(Ty, Callee, Vec<(Ty, Opd)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<(u32, Ins)>,
}

pub const NONE: u32 = u32::MAX;

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub defined: bool,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
}

pub const FN_BASE: u64 = 0x4000_0000;
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 32
}
pub fn global_addr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(Rc<str>),
    Global(Rc<str>),
    Meta,
    Word(Rc<str>),
    Int(i128),
    FloatLit(Rc<str>),
    Str(Rc<[u8]>),
    CStr(Rc<[u8]>),
    Label(Rc<str>),
    P(char),
    Nl,
    Eof,
}

struct Lexer<'a> {
    s: &'a [u8],
    p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut v = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    v.push(b'\\');
                    self.p += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.p += 3;
                }
            } else {
                v.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        v
    }
    fn ident(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> Tok {
        loop {
            if self.p >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    return Tok::Nl;
                }
                b'/' if self.s.get(self.p + 1) == Some(&b'*') => {
                    self.p += 2;
                    while self.p + 1 < self.s.len() && !(self.s[self.p] == b'*' && self.s[self.p + 1] == b'/') {
                        self.p += 1;
                    }
                    self.p += 2;
                }
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'%' => {
                    self.p += 1;
                    return Tok::Local(self.ident().into());
                }
                b'@' => {
                    self.p += 1;
                    return Tok::Global(self.ident().into());
                }
                b'!' => {
                    self.p += 1;
                    self.ident();
                    return Tok::Meta;
                }
                b'#' => {
                    self.p += 1;
                    self.ident();
                    return Tok::P('#');
                }
                b'"' => {
                    let v = self.quoted();
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        self.p += 1;
                        return Tok::Label(String::from_utf8_lossy(&v).into_owned().into());
                    }
                    return Tok::Str(v.into());
                }
                b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                    self.p += 1;
                    return Tok::CStr(self.quoted().into());
                }
                _ if is_id(c) || c == b'+' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.s.len() && (is_id(self.s[self.p]) || (self.s[self.p] == b'+' && matches!(self.s[self.p - 1], b'e' | b'E'))) {
                        self.p += 1;
                    }
                    let w = std::str::from_utf8(&self.s[st..self.p]).unwrap();
                    if self.p < self.s.len() && self.s[self.p] == b':' {
                        self.p += 1;
                        return Tok::Label(w.into());
                    }
                    let b0 = w.as_bytes()[0];
                    if w == "..." {
                        return Tok::Word("...".into());
                    }
                    if b0.is_ascii_digit() || b0 == b'-' || b0 == b'+' {
                        if w.starts_with("0x") || w.contains('.') || w.contains("inf") || w.contains("nan") {
                            return Tok::FloatLit(w.into());
                        }
                        if let Ok(i) = w.parse::<i128>() {
                            return Tok::Int(i);
                        }
                        if let Ok(i) = w.parse::<u128>() {
                            return Tok::Int(i as i128);
                        }
                        return Tok::FloatLit(w.into());
                    }
                    if w.starts_with("f0x") {
                        return Tok::FloatLit(w.into());
                    }
                    return Tok::Word(w.into());
                }
                _ => {
                    self.p += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
}

pub struct Parser<'a> {
    lx: Lexer<'a>,
    tok: Tok,
    types: HashMap<String, Ty>,
    fmap: HashMap<String, u32>,
    gmap: HashMap<String, u32>,
    aliases: HashMap<String, String>,
    // per-function
    regs: HashMap<Rc<str>, u32>,
    labels: HashMap<Rc<str>, u32>,
}

fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}

pub fn mkint(bits: u32, v: u128) -> V {
    let v = v & mask(bits);
    if bits > 64 {
        V::W(Rc::new(v))
    } else {
        V::C(v as u64)
    }
}

impl<'a> Parser<'a> {
    fn adv(&mut self) -> Tok {
        let t = self.lx.next();
        std::mem::replace(&mut self.tok, t)
    }
    fn peek_p(&self, c: char) -> bool {
        self.tok == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.peek_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn line(&self) -> usize {
        self.lx.s[..self.lx.p.min(self.lx.s.len())].iter().filter(|c| **c == b'\n').count() + 1
    }
    fn die(&self, m: &str) -> ! {
        panic!("parse error near line {}: {} (at {:?})", self.line(), m, self.tok)
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            self.die(&format!("expected {}", c))
        }
    }
    fn word(&self) -> Option<&str> {
        match &self.tok {
            Tok::Word(w) => Some(w),
            _ => None,
        }
    }
    fn is_word(&self, s: &str) -> bool {
        self.word() == Some(s)
    }
    fn eat_word(&mut self, s: &str) -> bool {
        if self.is_word(s) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn skip_line(&mut self) {
        while self.tok != Tok::Nl && self.tok != Tok::Eof {
            self.adv();
        }
        if self.tok == Tok::Nl {
            self.adv();
        }
    }
    fn is_type_start(&self) -> bool {
        match &self.tok {
            Tok::Word(w) => {
                matches!(&**w, "float" | "double" | "ptr" | "void" | "metadata" | "half" | "label")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('{') | Tok::P('<') | Tok::P('[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.adv() {
            Tok::Word(w) => match &*w {
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.eat_word("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "metadata" | "label" => Ty::Meta,
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                w => self.die(&format!("type {}", w)),
            },
            Tok::P('{') => self.struct_ty(false),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let t = self.struct_ty(true);
                    self.exp_p('>');
                    return t;
                }
                let n = match self.adv() {
                    Tok::Int(n) => n as u32,
                    _ => self.die("vec n"),
                };
                if !self.eat_word("x") {
                    self.die("x")
                }
                let t = self.ty();
                self.exp_p('>');
                Ty::Vec(n, Rc::new(t))
            }
            Tok::P('[') => {
                let n = match self.adv() {
                    Tok::Int(n) => n as u64,
                    _ => self.die("arr n"),
                };
                if !self.eat_word("x") {
                    self.die("x")
                }
                let t = self.ty();
                self.exp_p(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::Local(n) => match self.types.get(&*n) {
                Some(t) => t.clone(),
                None => self.die(&format!("named type {}", n)),
            },
            t => {
                self.tok = t;
                self.die("type")
            }
        }
    }
    fn struct_ty(&mut self, packed: bool) -> Ty {
        let mut f = vec![];
        if !self.eat_p('}') {
            loop {
                f.push(self.ty());
                if self.eat_p('}') {
                    break;
                }
                self.exp_p(',');
            }
        }
        Ty::Struct(Rc::new(f), packed)
    }
    fn skip_parens(&mut self) {
        // at '('
        self.exp_p('(');
        let mut d = 1;
        while d > 0 {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => self.die("eof in parens"),
                _ => {}
            }
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match &self.tok {
                Tok::Word(w) => {
                    if self.is_type_start() {
                        return;
                    }
                    // constants that may follow types are not attrs
                    match &**w {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                        | "inttoptr" | "bitcast" | "splat" | "sub" | "add" | "trunc" | "none" | "asm" | "blockaddress" | "select" => return,
                        _ => {}
                    }
                    let isalign = &**w == "align";
                    self.adv();
                    if self.peek_p('(') {
                        self.skip_parens();
                    } else if isalign {
                        if let Tok::Int(_) = self.tok {
                            self.adv();
                        }
                    }
                }
                Tok::P('#') => {
                    self.adv();
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.eat_p('=') {
                        self.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Int(n) if *n > 64 => V::W(Rc::new(0)),
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => V::C(0),
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                V::Agg((0..*n).map(|_| z.clone()).collect())
            }
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                V::Agg((0..*n).map(|_| z.clone()).collect())
            }
            Ty::Struct(f, _) => V::Agg(f.iter().map(|e| self.zero(e)).collect()),
            _ => V::C(0),
        }
    }
    fn float(&self, t: &Ty, s: &str) -> V {
        if let Some(h) = s.strip_prefix("f0x") {
            let b = u64::from_str_radix(h, 16).unwrap();
            return V::C(b);
        }
        let d: f64 = if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
        } else if s == "+inf" || s == "inf" {
            f64::INFINITY
        } else if s == "-inf" {
            f64::NEG_INFINITY
        } else if s.contains("nan") {
            f64::NAN
        } else {
            s.parse().unwrap_or_else(|_| self.die(&format!("float {}", s)))
        };
        match t {
            Ty::F32 => V::C((d as f32).to_bits() as u64),
            Ty::F64 => V::C(d.to_bits()),
            _ => self.die("float const type"),
        }
    }
    fn gref(&self, n: &str) -> V {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(i) = self.gmap.get(n) {
            V::C(global_addr(*i))
        } else if let Some(i) = self.fmap.get(n) {
            V::C(fn_addr(*i))
        } else {
            self.die(&format!("unknown global {}", n))
        }
    }
    fn val(&mut self, t: &Ty) -> Opd {
        if let Tok::Local(n) = &self.tok {
            let n = n.clone();
            self.adv();
            return Opd::R(self.reg(&n));
        }
        Opd::K(self.cst(t))
    }
    fn reg(&mut self, n: &Rc<str>) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.clone()).or_insert(k)
    }
    fn tyval(&mut self) -> (Ty, Opd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn cst(&mut self, t: &Ty) -> V {
        match self.adv() {
            Tok::Int(i) => match t {
                Ty::Int(n) => mkint(*n, i as u128),
                Ty::F32 | Ty::F64 => self.float(t, &format!("{}", i)),
                _ => self.die("int const"),
            },
            Tok::FloatLit(s) => self.float(t, &s),
            Tok::Global(n) => self.gref(&n),
            Tok::CStr(s) => V::Agg(s.iter().map(|b| V::C(*b as u64)).collect()),
            Tok::P('{') => {
                let v = self.agg('}');
                V::Agg(v.into())
            }
            Tok::P('[') => {
                let v = self.agg(']');
                V::Agg(v.into())
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg('}');
                    self.exp_p('>');
                    V::Agg(v.into())
                } else {
                    let v = self.agg('>');
                    V::Agg(v.into())
                }
            }
            Tok::Word(w) => match &*w {
                "true" => V::C(1),
                "false" => V::C(0),
                "null" | "none" => V::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(t),
                "splat" => {
                    self.exp_p('(');
                    let (_, v) = self.tyval();
                    self.exp_p(')');
                    let v = match v {
                        Opd::K(v) => v,
                        _ => self.die("splat"),
                    };
                    match t {
                        Ty::Vec(n, _) => V::Agg((0..*n).map(|_| v.clone()).collect()),
                        Ty::Arr(n, _) => V::Agg((0..*n).map(|_| v.clone()).collect()),
                        _ => self.die("splat ty"),
                    }
                }
                "getelementptr" => {
                    while self.word().is_some() {
                        let isr = self.is_word("inrange");
                        self.adv();
                        if isr {
                            self.skip_parens();
                        }
                    }
                    self.exp_p('(');
                    let et = self.ty();
                    self.exp_p(',');
                    let (_, b) = self.tyval();
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        if self.is_word("inrange") {
                            self.adv();
                            if self.peek_p('(') {
                                self.skip_parens();
                            }
                        }
                        idx.push(self.tyval());
                    }
                    self.exp_p(')');
                    let base = match b {
                        Opd::K(V::C(x)) => x,
                        _ => self.die("gep base"),
                    };
                    let (off, rest) = self.gep_off(&et, &idx);
                    if !rest.is_empty() {
                        self.die("const gep");
                    }
                    V::C(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                    self.exp_p('(');
                    let (_, v) = self.tyval();
                    if !self.eat_word("to") {
                        self.die("to")
                    }
                    let tt = self.ty();
                    self.exp_p(')');
                    match v {
                        Opd::K(V::C(x)) => V::C((x as u128 & mask(tt.bits())) as u64),
                        Opd::K(v) => v,
                        _ => self.die("constexpr"),
                    }
                }
                "sub" | "add" => {
                    while self.word().is_some() {
                        self.adv();
                    }
                    self.exp_p('(');
                    let (tt, a) = self.tyval();
                    self.exp_p(',');
                    let (_, b) = self.tyval();
                    self.exp_p(')');
                    match (a, b) {
                        (Opd::K(V::C(x)), Opd::K(V::C(y))) => {
                            let r = if &*w == "sub" { x.wrapping_sub(y) } else { x.wrapping_add(y) };
                            V::C((r as u128 & mask(tt.bits())) as u64)
                        }
                        _ => self.die("constexpr sub"),
                    }
                }
                w => {
                    let w = w.to_string();
                    self.die(&format!("const {}", w))
                }
            },
            t => {
                self.tok = t;
                self.die("const")
            }
        }
    }
    fn agg(&mut self, close: char) -> Vec<V> {
        let mut v = vec![];
        if self.eat_p(close) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.cst(&t));
            if self.eat_p(close) {
                return v;
            }
            self.exp_p(',');
        }
    }
    fn gep_off(&self, et: &Ty, idx: &[(Ty, Opd)]) -> (i64, Vec<(Opd, u32, i64)>) {
        let mut off = 0i64;
        let mut rest = vec![];
        let mut cur = et.clone();
        for (k, (t, o)) in idx.iter().enumerate() {
            let (scale, next) = if k == 0 {
                (cur.size() as i64, cur.clone())
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let i = match o {
                            Opd::K(V::C(i)) => *i as usize,
                            _ => self.die("struct idx"),
                        };
                        off += cur.field_off(i) as i64;
                        cur = cur.elem(i);
                        continue;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size() as i64, (**e).clone()),
                    _ => self.die("gep type"),
                }
            };
            let bits = t.bits();
            match o {
                Opd::K(V::C(i)) => {
                    let i = if bits < 64 { ((*i << (64 - bits)) as i64) >> (64 - bits) } else { *i as i64 };
                    off = off.wrapping_add(i.wrapping_mul(scale));
                }
                o => rest.push((o.clone(), bits, scale)),
            }
            cur = next;
        }
        (off, rest)
    }
    fn label(&mut self) -> u32 {
        // label %x
        if !self.eat_word("label") {
            self.die("label")
        }
        match self.adv() {
            Tok::Local(n) => self.lab(&n),
            _ => self.die("label name"),
        }
    }
    fn lab(&mut self, n: &Rc<str>) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n.clone()).or_insert(k)
    }
    fn skip_flags(&mut self) {
        while let Some(w) = self.word() {
            match w {
                "nuw" | "nsw" | "exact" | "samesign" | "disjoint" | "nneg" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "arcp"
                | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "atomic" | "weak" | "inalloca" => {
                    self.adv();
                }
                "inrange" => {
                    self.adv();
                    if self.peek_p('(') {
                        self.skip_parens();
                    }
                }
                _ => return,
            }
        }
    }

    fn ins(&mut self) -> Option<(u32, Ins, Option<Vec<(u32, Opd)>>)> {
        let mut dst = NONE;
        if let Tok::Local(n) = &self.tok {
            let n = n.clone();
            self.adv();
            self.exp_p('=');
            dst = self.reg(&n);
        }
        let w: Rc<str> = match self.adv() {
            Tok::Word(w) => w,
            t => {
                self.tok = t;
                self.die("instruction")
            }
        };
        let bin = |w: &str| {
            Some(match w {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "fadd" => Bin::FAdd,
                "fsub" => Bin::FSub,
                "fmul" => Bin::FMul,
                "fdiv" => Bin::FDiv,
                "frem" => Bin::FRem,
                _ => return None,
            })
        };
        let cast = |w: &str| {
            Some(match w {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "fptrunc" => Cast::FpTrunc,
                "fpext" => Cast::FpExt,
                "fptoui" => Cast::FpToUi,
                "fptosi" => Cast::FpToSi,
                "uitofp" => Cast::UiToFp,
                "sitofp" => Cast::SiToFp,
                "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                "inttoptr" => Cast::IntToPtr,
                "bitcast" => Cast::Bitcast,
                _ => return None,
            })
        };
        if let Some(b) = bin(&w) {
            self.skip_flags();
            let (t, a) = self.tyval();
            self.exp_p(',');
            let bb = self.val(&t);
            return Some((dst, Ins::Bin(b, t, a, bb), None));
        }
        if let Some(c) = cast(&w) {
            self.skip_flags();
            let (t, a) = self.tyval();
            if !self.eat_word("to") {
                self.die("to")
            }
            let tt = self.ty();
            return Some((dst, Ins::Cast(c, t, tt, a), None));
        }
        let i = match &*w {
            "fneg" => {
                self.skip_flags();
                let (t, a) = self.tyval();
                Ins::FNeg(t, a)
            }
            "freeze" => {
                let (_, a) = self.tyval();
                Ins::Freeze(a)
            }
            "icmp" => {
                self.skip_flags();
                let p = match self.adv() {
                    Tok::Word(w) => match &*w {
                        "eq" => IP::Eq,
                        "ne" => IP::Ne,
                        "ugt" => IP::Ugt,
                        "uge" => IP::Uge,
                        "ult" => IP::Ult,
                        "ule" => IP::Ule,
                        "sgt" => IP::Sgt,
                        "sge" => IP::Sge,
                        "slt" => IP::Slt,
                        "sle" => IP::Sle,
                        _ => self.die("icmp pred"),
                    },
                    _ => self.die("icmp pred"),
                };
                let (t, a) = self.tyval();
                self.exp_p(',');
                let b = self.val(&t);
                Ins::ICmp(p, t, a, b)
            }
            "fcmp" => {
                self.skip_flags();
                let p = match self.adv() {
                    Tok::Word(w) => match &*w {
                        "false" => FP::False,
                        "oeq" => FP::Oeq,
                        "ogt" => FP::Ogt,
                        "oge" => FP::Oge,
                        "olt" => FP::Olt,
                        "ole" => FP::Ole,
                        "one" => FP::One,
                        "ord" => FP::Ord,
                        "ueq" => FP::Ueq,
                        "ugt" => FP::Ugt,
                        "uge" => FP::Uge,
                        "ult" => FP::Ult,
                        "ule" => FP::Ule,
                        "une" => FP::Une,
                        "uno" => FP::Uno,
                        "true" => FP::True,
                        _ => self.die("fcmp pred"),
                    },
                    _ => self.die("fcmp pred"),
                };
                let (t, a) = self.tyval();
                self.exp_p(',');
                let b = self.val(&t);
                Ins::FCmp(p, t, a, b)
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.tyval();
                self.exp_p(',');
                let (t, a) = self.tyval();
                self.exp_p(',');
                let (_, b) = self.tyval();
                Ins::Select(ct, t, c, a, b)
            }
            "getelementptr" => {
                self.skip_flags();
                let et = self.ty();
                self.exp_p(',');
                let (bt, b) = self.tyval();
                if bt != Ty::Ptr {
                    self.die("vector gep")
                }
                let mut idx = vec![];
                while self.eat_p(',') {
                    if self.tok == Tok::Meta {
                        break;
                    }
                    idx.push(self.tyval());
                }
                let (off, rest) = self.gep_off(&et, &idx);
                Ins::Gep(b, off, rest)
            }
            "load" => {
                self.skip_flags();
                let t = self.ty();
                self.exp_p(',');
                let (_, p) = self.tyval();
                Ins::Load(t, p)
            }
            "store" => {
                self.skip_flags();
                let (t, v) = self.tyval();
                self.exp_p(',');
                let (_, p) = self.tyval();
                Ins::Store(t, v, p)
            }
            "alloca" => {
                self.skip_flags();
                let t = self.ty();
                let mut n = Opd::K(V::C(1));
                if self.eat_p(',') {
                    if self.is_type_start() {
                        n = self.tyval().1;
                    }
                }
                Ins::Alloca(t.size(), n)
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.tyval();
                self.exp_p(',');
                let (t, c) = self.tyval();
                self.exp_p(',');
                let (_, n) = self.tyval();
                Ins::CmpXchg(t, p, c, n)
            }
            "atomicrmw" => {
                self.skip_flags();
                let op = match self.adv() {
                    Tok::Word(w) => w,
                    _ => self.die("rmw"),
                };
                let (_, p) = self.tyval();
                self.exp_p(',');
                let (t, v) = self.tyval();
                Ins::Rmw(op, t, p, v)
            }
            "fence" => Ins::Fence,
            "extractvalue" => {
                let (_, a) = self.tyval();
                let mut idx = vec![];
                while self.eat_p(',') {
                    match self.tok {
                        Tok::Int(i) => {
                            idx.push(i as u32);
                            self.adv();
                        }
                        _ => break,
                    }
                }
                Ins::ExtractValue(a, idx)
            }
            "insertvalue" => {
                let (t, a) = self.tyval();
                self.exp_p(',');
                let (_, v) = self.tyval();
                let mut idx = vec![];
                while self.eat_p(',') {
                    match self.tok {
                        Tok::Int(i) => {
                            idx.push(i as u32);
                            self.adv();
                        }
                        _ => break,
                    }
                }
                Ins::InsertValue(t, a, v, idx)
            }
            "extractelement" => {
                let (t, a) = self.tyval();
                self.exp_p(',');
                let (_, i) = self.tyval();
                Ins::ExtractElement(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyval();
                self.exp_p(',');
                let (_, v) = self.tyval();
                self.exp_p(',');
                let (_, i) = self.tyval();
                Ins::InsertElement(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval();
                self.exp_p(',');
                let (_, b) = self.tyval();
                self.exp_p(',');
                let mt = self.ty();
                let m = self.cst(&mt);
                let m = match m {
                    V::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            V::C(i) => *i as i32,
                            _ => 0,
                        })
                        .collect(),
                    _ => self.die("mask"),
                };
                Ins::Shuffle(t, a, b, m)
            }
            "phi" => {
                self.skip_flags();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.exp_p('[');
                    let x = self.val(&t);
                    self.exp_p(',');
                    let l = match self.adv() {
                        Tok::Local(n) => self.lab(&n),
                        _ => self.die("phi label"),
                    };
                    self.exp_p(']');
                    v.push((l, x));
                    if !self.eat_p(',') {
                        break;
                    }
                    if !self.peek_p('[') {
                        break;
                    }
                }
                return Some((dst, Ins::Fence, Some(v)));
            }
            "tail" | "musttail" | "notail" | "call" => {
                if &*w != "call" {
                    self.adv();
                }
                self.skip_flags();
                self.skip_attrs();
                let rt = self.ty();
                if self.peek_p('(') {
                    self.skip_parens();
                }
                self.skip_attrs();
                let callee = match self.tok.clone() {
                    Tok::Global(n) => {
                        self.adv();
                        let n2 = self.aliases.get(&*n).cloned().unwrap_or_else(|| n.to_string());
                        match self.fmap.get(&n2) {
                            Some(i) => Callee::Fun(*i),
                            None => self.die(&format!("callee {}", n2)),
                        }
                    }
                    Tok::Local(n) => {
                        self.adv();
                        Callee::Ptr(Opd::R(self.reg(&n)))
                    }
                    Tok::Word(w) if &*w == "asm" => {
                        self.adv();
                        let mut s = String::new();
                        while !self.peek_p('(') {
                            if let Tok::Str(b) = &self.tok {
                                s.push_str(&String::from_utf8_lossy(b));
                                s.push('|');
                            }
                            self.adv();
                        }
                        Callee::Asm(s.into())
                    }
                    _ => {
                        let v = self.cst(&Ty::Ptr);
                        Callee::Ptr(Opd::K(v))
                    }
                };
                self.exp_p('(');
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty();
                        if t == Ty::Meta {
                            // metadata argument
                            while !self.peek_p(',') && !self.peek_p(')') {
                                if self.peek_p('(') {
                                    self.skip_parens();
                                } else {
                                    self.adv();
                                }
                            }
                        } else {
                            self.skip_attrs();
                            let v = self.val(&t);
                            args.push((t, v));
                        }
                        if self.eat_p(')') {
                            break;
                        }
                        self.exp_p(',');
                    }
                }
                Ins::Call(rt, callee, args)
            }
            "br" => {
                if self.is_word("label") {
                    Ins::Br(self.label())
                } else {
                    let (_, c) = self.tyval();
                    self.exp_p(',');
                    let a = self.label();
                    self.exp_p(',');
                    let b = self.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval();
                self.exp_p(',');
                let d = self.label();
                self.exp_p('[');
                let mut cs = vec![];
                loop {
                    while self.tok == Tok::Nl {
                        self.adv();
                    }
                    if self.eat_p(']') {
                        break;
                    }
                    let (_, k) = self.tyval();
                    self.exp_p(',');
                    let l = self.label();
                    let k = match k {
                        Opd::K(V::C(x)) => x,
                        Opd::K(V::W(x)) => *x as u64,
                        _ => self.die("switch case"),
                    };
                    cs.push((k, l));
                }
                Ins::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.eat_word("void") {
                    Ins::Ret(None)
                } else {
                    let (t, v) = self.tyval();
                    Ins::Ret(Some((t, v)))
                }
            }
            "unreachable" => Ins::Unreachable,
            w => {
                let w = w.to_string();
                self.die(&format!("unknown instruction {}", w))
            }
        };
        Some((dst, i, None))
    }
}

/// Writes constant `v` of type `t` into `out` at `off`.
pub fn write_const(out: &mut [u8], off: usize, t: &Ty, v: &V) {
    match (t, v) {
        (Ty::Struct(f, _), V::Agg(a)) => {
            for i in 0..f.len() {
                write_const(out, off + t.field_off(i) as usize, &f[i], &a[i]);
            }
        }
        (Ty::Arr(_, e), V::Agg(a)) | (Ty::Vec(_, e), V::Agg(a)) => {
            let s = e.size() as usize;
            for i in 0..a.len() {
                write_const(out, off + i * s, e, &a[i]);
            }
        }
        (_, V::C(x)) => {
            let n = t.size() as usize;
            out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, V::W(x)) => {
            let n = t.size() as usize;
            out[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        _ => panic!("write_const"),
    }
}

/// Named types may be used before they are defined: put definitions in order.
fn order_types(text: &str) -> Option<String> {
    let def = |l: &str| l.starts_with('%') && l.contains(" = type ");
    let defs: Vec<&str> = text.lines().filter(|l| def(l)).collect();
    if defs.len() < 2 {
        return None;
    }
    let name = |l: &str| l[..l.find(" = type ").unwrap()].to_string();
    let names: Vec<String> = defs.iter().map(|l| name(l)).collect();
    let mut done = vec![false; defs.len()];
    let mut out = String::with_capacity(text.len());
    loop {
        let mut progress = false;
        for i in 0..defs.len() {
            let body = &defs[i][names[i].len()..];
            if !done[i] && (0..defs.len()).all(|j| j == i || done[j] || !body.contains(&names[j])) {
                done[i] = true;
                progress = true;
                out.push_str(defs[i]);
                out.push('\n');
            }
        }
        if !progress {
            break;
        }
    }
    for l in text.lines().filter(|l| !def(l)) {
        out.push_str(l);
        out.push('\n');
    }
    Some(out)
}

pub fn parse(text: &str) -> Module {
    let ordered = order_types(text);
    let text = ordered.as_deref().unwrap_or(text);
    let src = text.as_bytes();
    let mut p = Parser {
        lx: Lexer { s: src, p: 0 },
        tok: Tok::Nl,
        types: HashMap::new(),
        fmap: HashMap::new(),
        gmap: HashMap::new(),
        aliases: HashMap::new(),
        regs: HashMap::new(),
        labels: HashMap::new(),
    };
    // pass 1: names
    let mut funcs: Vec<Func> = vec![];
    let mut globals: Vec<Global> = vec![];
    let fname = |l: &str| -> String {
        let at = l.find('@').unwrap();
        let r = &l[at + 1..];
        if r.starts_with('"') {
            let e = r[1..].find('"').unwrap();
            r[1..1 + e].to_string()
        } else {
            let e = r.find(|c: char| !(c.is_ascii() && is_id(c as u8))).unwrap_or(r.len());
            r[..e].to_string()
        }
    };
    for l in text.lines() {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let n = fname(l);
            if !p.fmap.contains_key(&n) {
                p.fmap.insert(n.clone(), funcs.len() as u32);
                funcs.push(Func { name: n, params: vec![], ret: Ty::Void, nregs: 0, blocks: vec![], defined: false });
            }
        } else if l.starts_with('@') {
            let n = fname(l);
            if l.contains(" alias ") {
                let at = l.rfind('@').unwrap();
                let t = fname(&l[at..]);
                p.aliases.insert(n, t);
                continue;
            }
            p.gmap.insert(n.clone(), globals.len() as u32);
            globals.push(Global { name: n, size: 0, constant: false, init: vec![] });
        } else if l.starts_with('%') && l.contains(" = type ") {
            // handled in order below
        }
    }
    for l in text.lines() {
        if l.starts_with('%') && l.contains(" = type ") {
            let mut q = Parser {
                lx: Lexer { s: l.as_bytes(), p: 0 },
                tok: Tok::Nl,
                types: std::mem::take(&mut p.types),
                fmap: HashMap::new(),
                gmap: HashMap::new(),
                aliases: HashMap::new(),
                regs: HashMap::new(),
                labels: HashMap::new(),
            };
            q.adv();
            let n = match q.adv() {
                Tok::Local(n) => n.to_string(),
                _ => panic!(),
            };
            q.exp_p('=');
            q.adv();
            if !q.is_word("opaque") {
                let t = q.ty();
                q.types.insert(n, t);
            }
            p.types = q.types;
        }
    }
    // pass 2
    p.adv();
    loop {
        match p.tok.clone() {
            Tok::Eof => break,
            Tok::Nl => {
                p.adv();
            }
            Tok::Global(n) => {
                p.adv();
                let gi = match p.gmap.get(&*n) {
                    Some(g) => *g as usize,
                    None => {
                        p.skip_line();
                        continue;
                    }
                };
                p.exp_p('=');
                let mut external = false;
                let mut constant = false;
                loop {
                    match p.word() {
                        Some("constant") => {
                            constant = true;
                            p.adv();
                            break;
                        }
                        Some("global") => {
                            p.adv();
                            break;
                        }
                        Some("external") | Some("extern_weak") => {
                            external = true;
                            p.adv();
                        }
                        Some(_) => {
                            p.adv();
                            if p.peek_p('(') {
                                p.skip_parens();
                            }
                        }
                        None => p.die("global"),
                    }
                }
                let t = p.ty();
                let sz = t.size();
                let mut init = vec![0u8; sz as usize];
                if !external && !matches!(p.tok, Tok::P(',') | Tok::Nl) {
                    let v = p.cst(&t);
                    write_const(&mut init, 0, &t, &v);
                }
                globals[gi].size = sz;
                globals[gi].constant = constant;
                globals[gi].init = init;
                p.skip_line();
            }
            Tok::Word(w) if &*w == "declare" => {
                p.skip_line();
            }
            Tok::Word(w) if &*w == "define" => {
                p.adv();
                p.regs.clear();
                p.labels.clear();
                p.skip_attrs();
                let ret = p.ty();
                p.skip_attrs();
                let n = match p.adv() {
                    Tok::Global(n) => n,
                    _ => p.die("define name"),
                };
                let fi = p.fmap[&*n] as usize;
                p.exp_p('(');
                let mut params = vec![];
                if !p.eat_p(')') {
                    loop {
                        let _t = p.ty();
                        p.skip_attrs();
                        match p.adv() {
                            Tok::Local(n) => params.push(p.reg(&n)),
                            _ => p.die("param"),
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp_p(',');
                    }
                }
                while !p.peek_p('{') {
                    p.adv();
                }
                p.adv();
                let mut blocks: HashMap<u32, Block> = HashMap::new();
                let mut cur = Block { phis: vec![], ins: vec![] };
                let mut curlab: Option<u32> = None;
                let mut entry: Option<u32> = None;
                loop {
                    match p.tok.clone() {
                        Tok::Nl => {
                            p.adv();
                        }
                        Tok::P('}') => {
                            p.adv();
                            break;
                        }
                        Tok::Label(l) => {
                            p.adv();
                            if let Some(c) = curlab.take() {
                                blocks.insert(c, std::mem::replace(&mut cur, Block { phis: vec![], ins: vec![] }));
                            }
                            let k = p.lab(&l);
                            if entry.is_none() {
                                entry = Some(k);
                            }
                            curlab = Some(k);
                        }
                        _ => {
                            if curlab.is_none() {
                                let l: Rc<str> = format!("{}", params.len()).into();
                                let k = p.lab(&l);
                                entry = Some(k);
                                curlab = Some(k);
                            }
                            if let Some((d, i, phi)) = p.ins() {
                                match phi {
                                    Some(v) => cur.phis.push((d, v)),
                                    None => cur.ins.push((d, i)),
                                }
                            }
                            p.skip_line();
                        }
                    }
                }
                if let Some(c) = curlab.take() {
                    blocks.insert(c, cur);
                }
                // reorder: entry first
                let e = entry.unwrap();
                let nb = p.labels.len();
                let remap = |b: u32| -> u32 {
                    if b == e {
                        0
                    } else if b < e {
                        b + 1
                    } else {
                        b
                    }
                };
                let mut bv: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], ins: vec![] }).collect();
                for (k, mut b) in blocks {
                    for (_, ph) in b.phis.iter_mut() {
                        for x in ph.iter_mut() {
                            x.0 = remap(x.0);
                        }
                    }
                    for (_, i) in b.ins.iter_mut() {
                        match i {
                            Ins::Br(l) => *l = remap(*l),
                            Ins::CondBr(_, a, c) => {
                                *a = remap(*a);
                                *c = remap(*c);
                            }
                            Ins::Switch(_, _, d, cs) => {
                                *d = remap(*d);
                                for c in cs.iter_mut() {
                                    c.1 = remap(c.1);
                                }
                            }
                            _ => {}
                        }
                    }
                    bv[remap(k) as usize] = b;
                }
                funcs[fi].params = params;
                funcs[fi].ret = ret;
                funcs[fi].nregs = p.regs.len() as u32;
                funcs[fi].blocks = bv;
                funcs[fi].defined = true;
            }
            _ => p.skip_line(),
        }
    }
    Module { funcs, fmap: p.fmap, globals, gmap: p.gmap }
}
