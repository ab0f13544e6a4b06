//! Polynomial normal forms: every float term is a polynomial over atoms (inputs, reciprocals and terms that are
//! not polynomial) plus a sound bound on the accumulated rounding error.  Differences of algebraically equal
//! terms cancel, and what remains is a small linear query for the solver.
use crate::smt::rat;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

/// (term, is reciprocal)
type Atom = (Id, bool);
type Mono = Vec<Atom>;
#[derive(Clone)]
pub struct Form {
    pub m: BTreeMap<Mono, f64>,
    pub err: f64,
}
const MAX_MONO: usize = 300;
const MAX_DEG: usize = 12;
const EPS: f64 = 4.5e-16;

pub struct Poly<'a> {
    t: &'a Terms,
    f: HashMap<Id, Form>,
    /// terms whose range is much smaller than that of their polynomial become atoms
    collapse: bool,
}
impl<'a> Poly<'a> {
    pub fn new(t: &'a Terms, collapse: bool) -> Self {
        Poly { t, f: HashMap::new(), collapse }
    }
    fn atom_iv(&self, a: &Atom) -> (f64, f64) {
        let iv = self.t.fiv(a.0);
        if a.1 {
            let (x, y) = (1.0 / iv.hi, 1.0 / iv.lo);
            (x - x.abs() * EPS, y + y.abs() * EPS)
        } else {
            (iv.lo, iv.hi)
        }
    }
    pub fn mono_iv(&self, m: &Mono) -> (f64, f64) {
        let mut r = (1.0, 1.0);
        let mut k = 0;
        while k < m.len() {
            // even powers are not negative
            let mut p = 1;
            while k + p < m.len() && m[k + p] == m[k] {
                p += 1;
            }
            let (lo, hi) = self.atom_iv(&m[k]);
            let mut q = (1.0f64, 1.0f64);
            for _ in 0..p {
                let c = [q.0 * lo, q.0 * hi, q.1 * lo, q.1 * hi];
                q = (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            }
            if p % 2 == 0 {
                q.0 = q.0.max(0.0);
            }
            let c = [r.0 * q.0, r.0 * q.1, r.1 * q.0, r.1 * q.1];
            r = (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            r.0 -= r.0.abs() * 4.0 * EPS;
            r.1 += r.1.abs() * 4.0 * EPS;
            k += p;
        }
        r
    }
    fn mono_mag(&self, m: &Mono) -> f64 {
        let (a, b) = self.mono_iv(m);
        a.abs().max(b.abs())
    }
    /// largest magnitude of the polynomial (without its error)
    fn mag(&self, f: &Form) -> f64 {
        let mut s = 0.0;
        for (m, c) in &f.m {
            s += self.mono_mag(m) * c.abs();
        }
        s * (1.0 + 1e-12)
    }
    fn atom(&self, i: Id) -> Option<Form> {
        if !self.t.fiv(i).finite() {
            return None;
        }
        let mut m = BTreeMap::new();
        m.insert(vec![(i, false)], 1.0);
        Some(Form { m, err: 0.0 })
    }
    fn cst(c: f64) -> Form {
        let mut m = BTreeMap::new();
        if c != 0.0 {
            m.insert(vec![], c);
        }
        Form { m, err: 0.0 }
    }
    pub fn add(&self, a: &Form, b: &Form, s: f64) -> Form {
        let mut m = a.m.clone();
        let mut err = a.err + b.err;
        for (k, c) in &b.m {
            let e = m.entry(k.clone()).or_insert(0.0);
            let r = *e + s * c;
            if r != *e || *c != 0.0 {
                err += self.mono_mag(k) * r.abs() * EPS;
            }
            *e = r;
        }
        m.retain(|_, c| *c != 0.0);
        Form { m, err: err * (1.0 + 1e-12) }
    }
    fn mul(&self, a: &Form, b: &Form) -> Option<Form> {
        if a.m.len() * b.m.len() > 2000 {
            return None;
        }
        let (ma, mb) = (self.mag(a), self.mag(b));
        let mut err = ma * b.err + mb * a.err + a.err * b.err;
        let mut m: BTreeMap<Mono, f64> = BTreeMap::new();
        for (x, c) in &a.m {
            for (y, d) in &b.m {
                let mut k = x.clone();
                k.extend(y.iter().cloned());
                if k.len() > MAX_DEG {
                    return None;
                }
                k.sort();
                let e = m.entry(k).or_insert(0.0);
                *e += c * d;
            }
        }
        // each coefficient is a sum of at most min(|a|,|b|) rounded products
        err += ma * mb * EPS * (a.m.len().min(b.m.len()) as f64 + 2.0);
        m.retain(|_, c| *c != 0.0);
        if m.len() > MAX_MONO {
            return None;
        }
        Some(Form { m, err: err * (1.0 + 1e-12) })
    }
    /// The float operation rounds its exact result.
    fn round(&self, i: Id, mut f: Form) -> Form {
        let s = self.t.sort(i);
        let (u, den) = if s == Sort::F32 { (2f64.powi(-24), 2f64.powi(-149)) } else { (2f64.powi(-53), 2f64.powi(-1073)) };
        let iv = self.t.fiv(i);
        let mut g = self.mag(&f) + f.err;
        if iv.finite() {
            g = g.min(iv.lo.abs().max(iv.hi.abs()) * 1.0001);
        }
        f.err += g * u * 1.001 + den;
        f
    }
    fn form(&self, i: Id) -> Option<Form> {
        let n = self.t.node(i);
        let s = n.sort;
        let g = |k: usize| self.f.get(&n.a[k]);
        let r = match n.op {
            Op::Const => {
                let c = getf(s, n.aux);
                return if c.is_finite() { Some(Self::cst(c)) } else { None };
            }
            Op::FNeg => {
                let mut f = g(0)?.clone();
                for c in f.m.values_mut() {
                    *c = -*c;
                }
                return Some(f);
            }
            Op::FAdd => Some(self.round(i, self.add(g(0)?, g(1)?, 1.0))),
            Op::FMul => self.mul(g(0)?, g(1)?).map(|f| {
                let p2 = |f: &Form| {
                    f.err == 0.0
                        && f.m.len() == 1
                        && f.m.iter().all(|(k, c)| k.is_empty() && c.abs().log2().fract() == 0.0 && c.abs() > 1e-20 && c.abs() < 1e20)
                };
                if (p2(g(0).unwrap()) || p2(g(1).unwrap())) && s == Sort::F64 {
                    f
                } else {
                    self.round(i, f)
                }
            }),
            Op::Fma => {
                let p = self.mul(g(0)?, g(1)?)?;
                Some(self.round(i, self.add(&p, g(2)?, 1.0)))
            }
            Op::FDiv => {
                let b = g(1)?;
                if b.err == 0.0 && b.m.len() == 1 && b.m.contains_key(&vec![] as &Mono) {
                    let r = 1.0 / b.m[&vec![] as &Mono];
                    let mut f = self.mul(g(0)?, &Self::cst(r))?;
                    f.err += self.mag(&f) * EPS;
                    Some(self.round(i, f))
                } else if b.m.len() == 1 && b.m.contains_key(&vec![] as &Mono) && b.m[&vec![] as &Mono].abs() > 2.0 * b.err {
                    // a constant up to rounding
                    let c = b.m[&vec![] as &Mono];
                    let r = 1.0 / c;
                    let mut q = Self::cst(r);
                    q.err = b.err * r.abs() / (c.abs() - b.err) + r.abs() * EPS;
                    self.mul(g(0)?, &q).map(|f| self.round(i, f))
                } else {
                    let iv = self.t.fiv(n.a[1]);
                    if iv.finite() && (iv.lo > 1e-9 || iv.hi < -1e-9) {
                        let mut m = BTreeMap::new();
                        m.insert(vec![(n.a[1], true)], 1.0);
                        self.mul(g(0)?, &Form { m, err: 0.0 }).map(|f| self.round(i, f))
                    } else {
                        None
                    }
                }
            }
            Op::Ite => {
                // a decided condition, or branches that hardly differ
                match self.holds(n.a[0]) {
                    Some(true) => return g(1).cloned(),
                    Some(false) => return g(2).cloned(),
                    None => {}
                }
                let (a, b) = (g(1)?, g(2)?);
                let d = self.add(a, b, -1.0);
                let e = self.mag(&d) + d.err;
                if e > 1e-5 {
                    return None;
                }
                let mut f = a.clone();
                f.err += e;
                Some(f)
            }
            Op::Uf if n.n == 2 => {
                // an integer power
                let (_, name) = crate::exec::last_ident(&self.t.ufs[n.aux as usize]);
                let e = g(1)?;
                if !(name == "pow" || name == "powf") || e.err != 0.0 || !e.m.keys().all(|m| m.is_empty()) {
                    return None;
                }
                let k = e.m.get(&vec![] as &Mono).cloned().unwrap_or(0.0);
                if k < 0.0 || k > MAX_DEG as f64 || k.fract() != 0.0 {
                    return None;
                }
                let mut f = Self::cst(1.0);
                for _ in 0..k as usize {
                    f = self.mul(&f, g(0)?)?;
                }
                // the library function is accurate to about one unit in the last place
                let f = self.round(i, f);
                let f = self.round(i, f);
                Some(self.round(i, f))
            }
            Op::FCvt => {
                let f = g(0)?.clone();
                Some(if s == Sort::F64 { f } else { self.round(i, f) })
            }
            _ => None,
        };
        match r {
            // overflow to infinity is excluded
            Some(f) if f.m.len() <= MAX_MONO && self.mag(&f) + f.err < if s == Sort::F32 { 1e37 } else { 1e300 } => Some(f),
            _ => None,
        }
    }
    /// Range of the exact value.
    fn range(&self, f: &Form) -> (f64, f64) {
        let (mut lo, mut hi) = (0.0, 0.0);
        for (m, c) in &f.m {
            let (a, b) = self.mono_iv(m);
            lo += (a * c).min(b * c);
            hi += (a * c).max(b * c);
        }
        let e = f.err + self.mag(f) * 1e-12;
        (lo - e, hi + e)
    }
    fn holds(&self, i: Id) -> Option<bool> {
        let n = self.t.node(i);
        match n.op {
            Op::Not => self.holds(n.a[0]).map(|x| !x),
            Op::FLt | Op::FLe => {
                let (lo, hi) = self.range(&self.add(self.f.get(&n.a[0])?, self.f.get(&n.a[1])?, -1.0));
                if hi < 0.0 {
                    Some(true)
                } else if lo > 0.0 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn build(&mut self, roots: &[Id]) {
        for i in self.t.cone(roots) {
            if !self.t.sort(i).is_f() || self.f.contains_key(&i) {
                continue;
            }
            let mut f = self.form(i);
            if let (true, Some(g)) = (self.collapse, &f) {
                let iv = self.t.fiv(i);
                if iv.finite() && g.m.len() > 1 && iv.lo.abs().max(iv.hi.abs()) < 0.35 * self.mag(g) {
                    f = None;
                }
            }
            let f = f.or_else(|| self.atom(i));
            if let Some(f) = f {
                self.f.insert(i, f);
            }
        }
    }
    /// A query that is unsatisfiable when |a - b| <= abs for all values of the atoms, one disjunct per goal;
    /// None when a goal has no normal form or its error exceeds the tolerance.
    pub fn query(&mut self, goals: &[(Id, Id, f64)]) -> Option<String> {
        let mut dis = vec![];
        let mut names: BTreeMap<Mono, usize> = BTreeMap::new();
        for (a, b, abs) in goals {
            if !self.f.contains_key(a) || !self.f.contains_key(b) {
                self.build(&[*a, *b]);
            }
            let d = self.add(self.f.get(a)?, self.f.get(b)?, -1.0);
            let lim = abs * (1.0 - 1e-12) - d.err;
            if !(lim > 0.0) {
                return None;
            }
            let mut e = String::from("(+ 0.0");
            for (m, c) in &d.m {
                if m.is_empty() {
                    let _ = write!(e, " {}", rat(*c));
                } else {
                    let k = names.len();
                    let k = *names.entry(m.clone()).or_insert(k);
                    let _ = write!(e, " (* {} m{})", rat(*c), k);
                }
            }
            e.push(')');
            dis.push(format!("(or (> {e} {l}) (< {e} (- {l})))", e = e, l = rat(lim)));
        }
        let mut s = String::from("(set-logic QF_LRA)\n");
        for (m, k) in &names {
            let (lo, hi) = self.mono_iv(m);
            if !lo.is_finite() || !hi.is_finite() {
                return None;
            }
            let _ = writeln!(s, "(declare-const m{k} Real)\n(assert (and (<= {} m{k}) (<= m{k} {})))", rat(lo), rat(hi));
        }
        let _ = writeln!(s, "(assert (or {} false))\n(check-sat)", dis.join("\n "));
        Some(s)
    }
}

/// A nonlinear real query over the atoms of polynomial normal forms. Every comparison is weakened by the rounding
/// errors of its sides, so an unsatisfiable query decides the obligation.
pub struct Nra<'a, 'b> {
    p: &'b mut Poly<'a>,
    atoms: BTreeMap<Atom, usize>,
    work: Vec<Atom>,
    lits: HashMap<(Id, bool), String>,
    head: String,
    body: String,
    nb: usize,
    size: usize,
}
impl<'a, 'b> Nra<'a, 'b> {
    pub fn new(p: &'b mut Poly<'a>) -> Self {
        Nra { p, atoms: BTreeMap::new(), work: vec![], lits: HashMap::new(), head: String::new(), body: String::new(), nb: 0, size: 0 }
    }
    fn atom(&mut self, a: Atom) -> usize {
        if let Some(k) = self.atoms.get(&a) {
            return *k;
        }
        let k = self.atoms.len();
        self.atoms.insert(a, k);
        self.work.push(a);
        k
    }
    fn form(&mut self, i: Id) -> Option<Form> {
        if !self.p.f.contains_key(&i) {
            self.p.build(&[i]);
        }
        self.p.f.get(&i).cloned()
    }
    fn text(&mut self, f: &Form) -> String {
        let mut e = String::from("(+ 0.0");
        for (m, c) in &f.m {
            self.size += 1;
            if m.is_empty() {
                let _ = write!(e, " {}", rat(*c));
            } else {
                let _ = write!(e, " (* {}", rat(*c));
                for a in m {
                    let k = self.atom(*a);
                    let _ = write!(e, " a{}", k);
                }
                e.push(')');
            }
        }
        e.push(')');
        e
    }
    /// `a - b` as text and its error
    fn diff(&mut self, a: Id, b: Id) -> Option<(String, f64)> {
        let (f, g) = (self.form(a)?, self.form(b)?);
        let d = self.p.add(&f, &g, -1.0);
        Some((self.text(&d), d.err))
    }
    /// Implied by the boolean term having the given value.
    fn lit(&mut self, i: Id, v: bool) -> String {
        if let Some(s) = self.lits.get(&(i, v)) {
            return s.clone();
        }
        let n = self.p.t.node(i).clone();
        let nan = |me: &Self, k: usize| me.p.t.fiv(n.a[k]).nan;
        let txt = match n.op {
            Op::Const => ((n.aux != 0) == v).to_string(),
            Op::Not => return self.lit(n.a[0], !v),
            Op::And | Op::Or => {
                let (x, y) = (self.lit(n.a[0], v), self.lit(n.a[1], v));
                format!("({} {} {})", if (n.op == Op::And) == v { "and" } else { "or" }, x, y)
            }
            Op::Ite => {
                let (c, d) = (self.lit(n.a[0], true), self.lit(n.a[0], false));
                let (x, y) = (self.lit(n.a[1], v), self.lit(n.a[2], v));
                format!("(or (and {c} {x}) (and {d} {y}))")
            }
            Op::FLt | Op::FLe | Op::FEq => match self.diff(n.a[0], n.a[1]) {
                Some((d, e)) => match (n.op, v) {
                    (Op::FEq, true) => format!("(and (<= {d} {e}) (>= {d} (- {e})))", d = d, e = rat(e)),
                    (Op::FEq, false) => {
                        if e == 0.0 {
                            format!("(not (= {d} 0.0))")
                        } else {
                            "true".into()
                        }
                    }
                    (Op::FLt, true) if e == 0.0 => format!("(< {d} 0.0)"),
                    (_, true) => format!("(<= {d} {})", rat(e)),
                    (Op::FLe, false) if e == 0.0 && !nan(self, 0) && !nan(self, 1) => format!("(> {d} 0.0)"),
                    (_, false) => {
                        if nan(self, 0) || nan(self, 1) {
                            "true".into()
                        } else {
                            format!("(>= {d} (- {}))", rat(e))
                        }
                    }
                },
                None => "true".into(),
            },
            _ => {
                let k = self.nb;
                self.nb += 1;
                let _ = writeln!(self.head, "(declare-const b{k} Bool)");
                self.lits.insert((i, true), format!("b{k}"));
                self.lits.insert((i, false), format!("(not b{k})"));
                return self.lits[&(i, v)].clone();
            }
        };
        let name = if txt.len() > 12 {
            let k = self.nb;
            self.nb += 1;
            let _ = writeln!(self.body, "(define-fun l{k} () Bool {txt})");
            format!("l{k}")
        } else {
            txt
        };
        self.lits.insert((i, v), name.clone());
        name
    }
    fn atoms(&mut self) -> Option<()> {
        while let Some(a) = self.work.pop() {
            if self.size > 3000 || self.atoms.len() > 60 {
                return None;
            }
            let k = self.atoms[&a];
            let (lo, hi) = self.p.atom_iv(&a);
            if !lo.is_finite() || !hi.is_finite() {
                return None;
            }
            let _ = writeln!(self.head, "(declare-const a{k} Real)\n(assert (and (<= {} a{k}) (<= a{k} {})))", rat(lo), rat(hi));
            let n = self.p.t.node(a.0).clone();
            let mag = lo.abs().max(hi.abs());
            let near = |me: &mut Self, f: &Form, e: f64| {
                let x = me.text(f);
                format!("(and (<= (- a{k} {x}) {e}) (>= (- a{k} {x}) (- {e})))", e = rat(e))
            };
            if a.1 {
                if let Some(f) = self.form(a.0) {
                    let x = self.text(&f);
                    let e = rat(mag * f.err * 1.001);
                    let _ = writeln!(self.body, "(assert (and (<= (* a{k} {x}) (+ 1.0 {e})) (>= (* a{k} {x}) (- 1.0 {e}))))");
                }
                continue;
            }
            match n.op {
                Op::Ite => {
                    let mut alt = vec![];
                    for (c, x) in [(true, n.a[1]), (false, n.a[2])] {
                        let l = self.lit(n.a[0], c);
                        match self.form(x) {
                            Some(f) => {
                                let w = near(self, &f, f.err);
                                alt.push(format!("(and {l} {w})"));
                            }
                            None => alt.push(l),
                        }
                    }
                    let _ = writeln!(self.body, "(assert (or {}))", alt.join(" "));
                }
                Op::FRnd if n.aux == 0 => {
                    if let Some(f) = self.form(n.a[0]) {
                        let x = self.text(&f);
                        let e = rat(f.err);
                        let _ = writeln!(self.body, "(assert (and (<= (- a{k} {x}) {e}) (>= (- a{k} {x}) (- (- 1.0) {e}))))");
                    }
                }
                Op::FAbs => {
                    if let Some(f) = self.form(n.a[0]) {
                        let mut g = f.clone();
                        g.m.values_mut().for_each(|c| *c = -*c);
                        let (x, y) = (near(self, &f, f.err), near(self, &g, f.err));
                        let _ = writeln!(self.body, "(assert (or {x} {y}))");
                    }
                }
                Op::FSqrt => {
                    if let Some(f) = self.form(n.a[0]) {
                        let u = if n.sort == Sort::F32 { 2f64.powi(-24) } else { 2f64.powi(-53) };
                        let e = rat(f.err + (mag * mag + f.err) * 3.0 * u + 1e-40);
                        let x = self.text(&f);
                        let _ = writeln!(self.body, "(assert (and (<= (- (* a{k} a{k}) {x}) {e}) (>= (- (* a{k} a{k}) {x}) (- {e}))))");
                    }
                }
                _ => {}
            }
        }
        // sine and cosine of the same argument
        let mut trig: BTreeMap<(Id, bool), usize> = BTreeMap::new();
        for (a, k) in &self.atoms {
            let n = self.p.t.node(a.0);
            if !a.1 && n.op == Op::Uf && n.n == 1 {
                let (_, name) = crate::exec::last_ident(&self.p.t.ufs[n.aux as usize]);
                if matches!(name.as_str(), "sin" | "sinf" | "cos" | "cosf") {
                    trig.insert((n.a[0], name.starts_with('s')), *k);
                }
            }
        }
        for ((x, s), k) in &trig {
            if let (true, Some(c)) = (*s, trig.get(&(*x, false))) {
                let _ = writeln!(self.body, "(define-fun t{k} () Real (+ (* a{k} a{k}) (* a{c} a{c})))\n(assert (and (<= t{k} 1.000001) (>= t{k} 0.999999)))");
            }
        }
        Some(())
    }
    /// The query for `pc => goal`, where the goal is a boolean term or a difference with a tolerance.
    pub fn query(&mut self, pc: &[Id], check: Option<Id>, close: Option<(Id, Id, f64)>) -> Option<String> {
        let mut asserts = String::new();
        if let Some(c) = check {
            let l = self.lit(c, false);
            if l == "true" {
                return None;
            }
            let _ = writeln!(asserts, "(assert {l})");
        }
        if let Some((a, b, abs)) = close {
            let (d, e) = self.diff(a, b)?;
            let lim = abs * (1.0 - 1e-12) - e;
            if !(lim > 0.0) {
                return None;
            }
            let _ = writeln!(asserts, "(assert (or (> {d} {l}) (< {d} (- {l}))))", l = rat(lim));
        }
        for c in pc.iter().rev().take(60) {
            let l = self.lit(*c, true);
            if l != "true" {
                let _ = writeln!(asserts, "(assert {l})");
            }
        }
        self.atoms()?;
        Some(format!("(set-logic QF_NRA)\n{}{}{}(check-sat)\n", self.head, self.body, asserts))
    }
}
