//! Symbolic execution of LLVM IR harnesses with SMT-decided obligations.
//!
//! symex run --ll F.ll --h h_name --out OUT.json [--secs N] [--replay BIN] [--work DIR] [--seed N] [--tier quick|thorough]
mod exec;
mod ir;
mod poly;
mod smt;
mod term;
use exec::*;
use smt::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Read;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};
use term::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn close_ok(x: f64, y: f64, abs: f64, rel: f64) -> bool {
    x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= abs + rel * x.abs().max(y.abs())
}

enum Assign {
    Col(usize),
    Wit(Rc<Witness>),
}

/// Text of a replay input file: one line per primitive call.
fn inputs_text(e: &mut Exec, inputs: &[Input], a: &Assign) -> String {
    let mut s = String::new();
    for i in inputs {
        match i {
            Input::Choice(v, n) => {
                let _ = writeln!(s, "c {} {}", v, n);
            }
            Input::Term(id) => {
                let v = match a {
                    Assign::Col(k) => e.t.col(*id, *k),
                    Assign::Wit(w) => e.eval_wit(w, *id),
                };
                let k = match e.t.sort(*id) {
                    Sort::F32 => 'f',
                    Sort::F64 => 'd',
                    _ => 'u',
                };
                let _ = writeln!(s, "{} {:x}", k, v);
            }
        }
    }
    s
}

struct Native {
    out: String,
    code: Option<i32>,
}
fn native(bin: &str, h: &str, file: &str, secs: u64) -> Native {
    let mut c = match Command::new(bin).arg(h).arg(file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return Native { out: format!("{}", e), code: None },
    };
    let mut so = c.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut o = String::new();
        let _ = so.read_to_string(&mut o);
        o
    });
    let end = Instant::now() + Duration::from_secs(secs);
    let code = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s.code().unwrap_or(-1)),
            Ok(None) => {
                if Instant::now() > end {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(_) => break None,
        }
    };
    Native { out: th.join().unwrap_or_default(), code }
}

fn kind_key(k: &Kind) -> (u8, Id, Id, u64, u64) {
    match k {
        Kind::Check(c) => (0, *c, 0, 0, 0),
        Kind::Close(a, b, x, y) => (1, *a, *b, x.to_bits(), y.to_bits()),
        Kind::Fault => (2, 0, 0, 0, 0),
    }
}
fn goal(o: &Oblig) -> (Vec<Id>, Goal) {
    let g = match &o.kind {
        Kind::Check(c) => Goal::Holds(*c),
        Kind::Close(a, b, x, y) => Goal::Close(*a, *b, *x, *y),
        Kind::Fault => Goal::Never,
    };
    (o.pc.to_vec(), g)
}

fn violated_cols(e: &Exec, o: &Oblig) -> u32 {
    match &o.kind {
        Kind::Check(c) => o.mask & !e.t.boolmask(*c),
        Kind::Close(a, b, x, y) => {
            let mut m = 0;
            for k in 0..W {
                if o.mask >> k & 1 != 0 {
                    let (p, q) = (f64b(e.t.col(*a, k)), f64b(e.t.col(*b, k)));
                    if !close_ok(p, q, *x, *y) {
                        m |= 1 << k;
                    }
                }
            }
            m
        }
        Kind::Fault => o.mask,
    }
}
fn violated_wit(e: &mut Exec, o: &Oblig, w: &Rc<Witness>) -> bool {
    for p in o.pc.iter() {
        if e.eval_wit(w, *p) == 0 {
            return false;
        }
    }
    match &o.kind {
        Kind::Check(c) => e.eval_wit(w, *c) == 0,
        Kind::Close(a, b, x, y) => {
            let (p, q) = (f64b(e.eval_wit(w, *a)), f64b(e.eval_wit(w, *b)));
            !close_ok(p, q, *x, *y)
        }
        Kind::Fault => true,
    }
}

struct Cfg {
    ll: String,
    h: String,
    out: String,
    secs: u64,
    replay: String,
    work: String,
    seed: u64,
    thorough: bool,
    verbose: bool,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = Cfg {
        ll: String::new(),
        h: String::new(),
        out: String::new(),
        secs: 120,
        replay: String::new(),
        work: "/tmp".into(),
        seed: 1,
        thorough: false,
        verbose: false,
    };
    let mut i = 2;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => c.ll = v,
            "--h" => c.h = v,
            "--out" => c.out = v,
            "--secs" => c.secs = v.parse().unwrap(),
            "--replay" => c.replay = v,
            "--work" => c.work = v,
            "--seed" => c.seed = v.parse().unwrap(),
            "--tier" => c.thorough = v == "thorough",
            "-v" => {
                c.verbose = true;
                i -= 1;
            }
            x => panic!("unknown option {}", x),
        }
        i += 2;
    }
    // deep term structures: run in a thread with a large stack
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(c)).unwrap().join().unwrap();
}

struct Viol {
    msg: String,
    file: String,
    native: String,
    by: String,
}

struct Pipe {
    e: Exec,
    cfg: Cfg,
    deadline: Instant,
    viols: Vec<Viol>,
    viol_msgs: HashSet<String>,
    unrepro: Vec<String>,
    nrep: u32,
    tried: HashMap<String, u32>,
    by: BTreeMap<String, u64>,
    open: Vec<String>,
    nopen: u64,
}

impl Pipe {
    fn left(&self) -> u64 {
        self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64
    }
    /// Replays a candidate natively; returns true when the violation is confirmed.
    fn candidate(&mut self, o: &Oblig, a: Assign, by: &str) -> bool {
        if self.viol_msgs.contains(&o.msg) {
            return true;
        }
        let t = self.tried.entry(o.msg.clone()).or_insert(0);
        if *t >= 12 {
            return false;
        }
        *t += 1;
        let txt = inputs_text(&mut self.e, &o.inputs.clone(), &a);
        self.nrep += 1;
        let file = format!("{}/{}.{}.replay", self.cfg.work, self.cfg.h, self.nrep);
        let _ = std::fs::write(&file, &txt);
        if self.cfg.replay.is_empty() {
            self.unrepro.push(format!("{} (no native replay binary)", o.msg));
            return false;
        }
        let r = native(&self.cfg.replay, &self.cfg.h, &file, 60);
        let fails: Vec<&str> = r.out.lines().filter(|l| l.starts_with("FAIL ") || l.starts_with("FAULT ")).collect();
        if fails.is_empty() {
            self.unrepro.push(format!("{} (candidate from {} not reproduced natively: exit {:?})", o.msg, by, r.code));
            return false;
        }
        self.viol_msgs.insert(o.msg.clone());
        let first = fails.iter().find(|l| l.contains(o.msg.as_str())).unwrap_or(&fails[0]).to_string();
        self.viols.push(Viol { msg: o.msg.clone(), file, native: first, by: by.into() });
        true
    }

    fn settle(&mut self, o: &Oblig, v: Verdict, by: &str) -> bool {
        match v {
            Verdict::Unsat => {
                *self.by.entry(by.into()).or_insert(0) += 1;
                true
            }
            Verdict::Sat(vars) => {
                let w = Rc::new(Witness { vars, memo: Default::default() });
                if violated_wit(&mut self.e, o, &w) {
                    return self.candidate(o, Assign::Wit(w), by);
                }
                false
            }
            Verdict::Unknown => false,
        }
    }

    /// Differences in polynomial normal form; returns the obligations left open.
    fn polys(&mut self, os: &[Oblig], idx: Vec<usize>, collapse: bool, name: &str) -> Vec<usize> {
        let mut open = vec![];
        let mut texts: Vec<(Vec<usize>, String)> = vec![];
        {
            let t = &self.e.t;
            let mut p = poly::Poly::new(t, collapse);
            let mut roots = vec![];
            for i in &idx {
                if let Kind::Close(a, b, _, _) = &os[*i].kind {
                    roots.push(*a);
                    roots.push(*b);
                }
            }
            p.build(&roots);
            let mut good = vec![];
            for i in &idx {
                match &os[*i].kind {
                    Kind::Close(a, b, abs, _) if self.left() > 5000 && p.query(&[(*a, *b, *abs)]).is_some() => good.push((*i, (*a, *b, *abs))),
                    _ => open.push(*i),
                }
            }
            for c in good.chunks(60) {
                let g: Vec<(Id, Id, f64)> = c.iter().map(|x| x.1).collect();
                if let Some(s) = p.query(&g) {
                    texts.push((c.iter().map(|x| x.0).collect(), s));
                }
            }
            // obligations of a batch that is not decided as a whole, one by one
            let mut k = 0;
            while k < texts.len() {
                let (c, s) = texts[k].clone();
                if self.left() > 2000 && self.e.s.raw_unsat(&s, 5000, "polynomial normal forms") {
                    *self.by.entry(name.into()).or_insert(0) += c.len() as u64;
                } else if c.len() == 1 {
                    open.push(c[0]);
                } else {
                    let n = (c.len() + 3) / 4;
                    let mut p = poly::Poly::new(&self.e.t, collapse);
                    for d in c.chunks(n) {
                        let g: Vec<(Id, Id, f64)> = d
                            .iter()
                            .map(|i| match &os[*i].kind {
                                Kind::Close(a, b, abs, _) => (*a, *b, *abs),
                                _ => unreachable!(),
                            })
                            .collect();
                        match p.query(&g) {
                            Some(s) => texts.push((d.to_vec(), s)),
                            None => open.extend(d),
                        }
                    }
                }
                k += 1;
            }
        }
        open.sort();
        open
    }

    /// Nonlinear real arithmetic over polynomial normal forms, one obligation at a time.
    fn nra(&mut self, os: &[Oblig], idx: Vec<usize>, ms: u64, name: &str) -> Vec<usize> {
        let mut open = vec![];
        let mut failed: HashMap<String, u32> = HashMap::new();
        let cap = if self.cfg.thorough { 40 } else { 6 };
        for i in idx {
            let o = &os[i];
            if self.viol_msgs.contains(&o.msg) {
                continue;
            }
            if failed.get(&o.msg).copied().unwrap_or(0) >= cap || self.left() < 2000 {
                open.push(i);
                continue;
            }
            let s = {
                let mut p = poly::Poly::new(&self.e.t, false);
                let mut n = poly::Nra::new(&mut p);
                match &o.kind {
                    Kind::Check(c) => n.query(&o.pc, Some(*c), None),
                    Kind::Close(a, b, abs, _) => n.query(&o.pc, None, Some((*a, *b, *abs))),
                    Kind::Fault => n.query(&o.pc, None, None),
                }
            };
            let lim = ms.min(self.left());
            match s {
                Some(s) if self.e.s.raw_unsat(&s, lim, "nonlinear polynomial normal forms") => {
                    *self.by.entry(name.into()).or_insert(0) += 1;
                }
                _ => {
                    *failed.entry(o.msg.clone()).or_insert(0) += 1;
                    open.push(i);
                }
            }
        }
        open
    }

    /// Batch attempt with bisection; returns the obligations left open.
    fn batch(&mut self, os: &[Oblig], idx: Vec<usize>, enc: Enc, ms: u64, single_ms: u64, chunk: usize, name: &str) -> Vec<usize> {
        let mut open = vec![];
        let mut work: Vec<Vec<usize>> = idx.chunks(chunk.max(1)).map(|c| c.to_vec()).collect();
        work.reverse();
        let mut failed: HashMap<String, u32> = HashMap::new();
        let cap = if self.cfg.thorough { 40 } else { 8 };
        while let Some(c) = work.pop() {
            let (c, skip): (Vec<usize>, Vec<usize>) = c.into_iter().partition(|i| failed.get(&os[*i].msg).copied().unwrap_or(0) < cap);
            open.extend(skip);
            if c.is_empty() {
                continue;
            }
            if self.left() < 1000 {
                open.extend(c);
                continue;
            }
            let c: Vec<usize> = c.into_iter().filter(|i| !self.viol_msgs.contains(&os[*i].msg)).collect();
            if c.is_empty() {
                continue;
            }
            let goals: Vec<(Vec<Id>, Goal)> = c.iter().map(|i| goal(&os[*i])).collect();
            let lim = (if c.len() == 1 { single_ms } else { ms }).min(self.left());
            let v = self.e.s.query(&self.e.t, &goals, enc, lim, c.len() == 1 && enc != Enc::Uf);
            match v {
                Verdict::Unsat => {
                    *self.by.entry(name.into()).or_insert(0) += c.len() as u64;
                }
                v if c.len() == 1 => {
                    if !self.settle(&os[c[0]], v, name) {
                        open.push(c[0]);
                        *failed.entry(os[c[0]].msg.clone()).or_insert(0) += 1;
                    }
                }
                _ => {
                    let k = (c.len() + 3) / 4;
                    let parts: Vec<Vec<usize>> = c.chunks(k).map(|x| x.to_vec()).collect();
                    for p in parts.into_iter().rev() {
                        work.push(p);
                    }
                }
            }
        }
        open
    }
}

fn run(cfg: Cfg) {
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&cfg.ll).unwrap();
    let m: &'static ir::Module = Box::leak(Box::new(ir::parse(&text)));
    drop(text);
    let f = *m.fmap.get(&cfg.h).unwrap_or_else(|| panic!("no harness {}", cfg.h));
    let _ = std::fs::create_dir_all(&cfg.work);
    let deadline = t0 + Duration::from_secs(cfg.secs);
    let mk = |d: Instant| Limits { paths: 200_000, steps: 400_000_000, deadline: d, feas_ms: if cfg.thorough { 10_000 } else { 3_000 } };

    // ---- translator validation: the same inputs natively and in the engine
    let mut validated = 0u64;
    let mut mismatches: Vec<String> = vec![];
    let mut vsteps = 0;
    if !cfg.replay.is_empty() {
        let n = if cfg.thorough { 12 } else { 3 };
        for k in 0..n {
            let mut e = Exec::new(m, cfg.seed, mk(Instant::now() + Duration::from_secs(40)), Solver::new(&cfg.work));
            e.concrete = Some(k * 5 + cfg.seed);
            e.start(f);
            // the inputs of the run are recorded by the state; run() keeps them in `last_inputs`
            e.run();
            vsteps += e.steps;
            let col = ((k * 5 + cfg.seed) % W as u64) as usize;
            let ins = e.last_inputs.clone();
            let txt = inputs_text(&mut e, &ins, &Assign::Col(col));
            let file = format!("{}/{}.v{}.replay", cfg.work, cfg.h, k);
            let _ = std::fs::write(&file, &txt);
            let r = native(&cfg.replay, &cfg.h, &file, 60);
            let nt: Vec<u64> = r.out.lines().filter_map(|l| l.strip_prefix("T ")).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
            let faulted = e.traces.is_empty();
            if faulted {
                // assumption failed, or a fault: compare the outcome only
                let nf = r.out.lines().any(|l| l.starts_with("FAULT "));
                let ef = e.obligs.iter().any(|o| matches!(o.kind, Kind::Fault));
                if nf != ef {
                    mismatches.push(format!("outcome differs: engine fault={} native fault={} {}", ef, nf, e.incomplete.join("; ")));
                } else {
                    validated += 1;
                }
            } else {
                let et = &e.traces[0];
                let same = et.len() == nt.len() && et.iter().zip(&nt).all(|(a, b)| tr_eq(*a, *b));
                if same {
                    validated += 1;
                } else {
                    let p = et.iter().zip(&nt).position(|(a, b)| !tr_eq(*a, *b)).unwrap_or(et.len().min(nt.len()));
                    mismatches.push(format!(
                        "trace differs at {} of {}/{}: engine {:x?} native {:x?}",
                        p,
                        et.len(),
                        nt.len(),
                        et.get(p),
                        nt.get(p)
                    ));
                }
            }
            let _ = std::fs::remove_file(&file);
        }
    }
    if cfg.verbose {
        eprintln!("validation: {} ok, mismatches {:?} ({:?})", validated, mismatches, t0.elapsed());
    }

    // ---- symbolic exploration
    let explore_end = t0 + Duration::from_secs(cfg.secs * 2 / 3);
    let mut e = Exec::new(m, cfg.seed, mk(explore_end), Solver::new(&cfg.work));
    e.s.keep = std::env::var("SYMEX_KEEP").is_ok();
    e.start(f);
    e.run();
    if cfg.verbose {
        eprintln!(
            "explored: paths {} steps {} forks {} pruned {} obligs {} terms {} feas_unknown {} ({:?})",
            e.paths,
            e.steps,
            e.forks,
            e.pruned,
            e.obligs.len(),
            e.t.nodes.len(),
            e.feas_unknown,
            t0.elapsed()
        );
        for i in e.incomplete.iter().take(10) {
            eprintln!("incomplete: {}", i);
        }
    }
    let all = std::mem::take(&mut e.obligs);
    let total = all.len();
    let mut p = Pipe {
        e,
        cfg,
        deadline,
        viols: vec![],
        viol_msgs: HashSet::new(),
        unrepro: vec![],
        nrep: 0,
        tried: HashMap::new(),
        by: BTreeMap::new(),
        open: vec![],
        nopen: 0,
    };
    // 0: simplification to true, duplicates
    let mut seen: HashSet<((u8, Id, Id, u64, u64), Rc<Vec<Id>>, String)> = HashSet::new();
    let mut os: Vec<Oblig> = vec![];
    let mut tr: Vec<Oblig> = vec![];
    let mut msgs: BTreeMap<String, u64> = BTreeMap::new();
    let mut subs: HashMap<Rc<Vec<Id>>, (HashMap<Id, Id>, HashMap<Id, Id>)> = HashMap::new();
    for mut o in all {
        // equalities between inputs in the path condition
        if let Kind::Close(a, b, x, y) = o.kind.clone() {
            if a != b && !o.pc.is_empty() {
                let t = &mut p.e.t;
                let (map, memo) = subs.entry(o.pc.clone()).or_insert_with(|| {
                    let mut map: HashMap<Id, Id> = HashMap::new();
                    let mut work: Vec<(Id, bool)> = o.pc.iter().rev().map(|c| (*c, true)).collect();
                    while let Some((c, pos)) = work.pop() {
                        let n = t.node(c).clone();
                        match n.op {
                            term::Op::Not => work.push((n.a[0], !pos)),
                            term::Op::And if pos => work.extend([(n.a[0], true), (n.a[1], true)]),
                            term::Op::Or if !pos => work.extend([(n.a[0], false), (n.a[1], false)]),
                            _ => {}
                        }
                        if pos && n.op == term::Op::FEq && !t.fiv(n.a[0]).nan && !t.fiv(n.a[1]).nan {
                            let r = |map: &HashMap<Id, Id>, mut i: Id| {
                                while let Some(j) = map.get(&i) {
                                    i = *j;
                                }
                                i
                            };
                            let (u, v) = (r(&map, n.a[0]), r(&map, n.a[1]));
                            if u == v {
                                continue;
                            }
                            let (uv, vv) = (t.node(u).op == term::Op::Var, t.node(v).op == term::Op::Var);
                            let (uc, vc) = (t.cval(u).is_some(), t.cval(v).is_some());
                            if uv && (vv && v < u || vc) {
                                map.insert(u, v);
                            } else if vv && (uv || uc) {
                                map.insert(v, u);
                            }
                        }
                    }
                    let keys: Vec<Id> = map.keys().copied().collect();
                    for k in keys {
                        let mut i = k;
                        while let Some(j) = map.get(&i) {
                            i = *j;
                        }
                        map.insert(k, i);
                    }
                    (map, HashMap::new())
                });
                if !map.is_empty() {
                    let (a, b) = (p.e.subst(a, map, memo), p.e.subst(b, map, memo));
                    o.kind = Kind::Close(a, b, x, y);
                }
            }
        }
        *msgs.entry(o.msg.clone()).or_insert(0) += 1;
        let triv = match &o.kind {
            Kind::Check(c) => p.e.t.cval(*c) == Some(1),
            Kind::Close(a, b, x, y) => match (p.e.t.cval(*a), p.e.t.cval(*b)) {
                (Some(u), Some(v)) => close_ok(f64b(u), f64b(v), *x, *y),
                _ => a == b,
            },
            Kind::Fault => false,
        };
        if !seen.insert((kind_key(&o.kind), o.pc.clone(), o.msg.clone())) {
            *p.by.entry("duplicate".into()).or_insert(0) += 1;
            continue;
        }
        if triv {
            tr.push(o);
            continue;
        }
        os.push(o);
    }
    drop(seen);
    // obligations whose two sides were rewritten to the same term during execution: the solver
    // still gets them, in bulk
    let mut tr_open = 0;
    for c in tr.chunks(400) {
        let goals: Vec<(Vec<Id>, Goal)> = c.iter().map(goal).collect();
        match p.e.s.query(&p.e.t, &goals, Enc::Uf, 20_000, false) {
            Verdict::Unsat => *p.by.entry("solver: identical terms (bit-vectors + uninterpreted float ops)".into()).or_insert(0) += c.len() as u64,
            _ => tr_open += c.len(),
        }
    }
    if tr_open > 0 {
        *p.by.entry("rewriting to identical terms only (bulk solver query timed out)".into()).or_insert(0) += tr_open as u64;
    }
    // 1: candidate assignments already known
    let mut rest = vec![];
    for k in 0..os.len() {
        let o = os[k].clone();
        if p.viol_msgs.contains(&o.msg) {
            continue;
        }
        let cols = violated_cols(&p.e, &o);
        let mut hit = false;
        for c in 0..W {
            if cols >> c & 1 != 0 {
                if p.candidate(&o, Assign::Col(c), "assignment column") {
                    hit = true;
                    break;
                }
            }
        }
        if !hit {
            for w in o.wits.clone() {
                if violated_wit(&mut p.e, &o, &w) && p.candidate(&o, Assign::Wit(w), "path witness") {
                    hit = true;
                    break;
                }
            }
        }
        if !hit {
            rest.push(k);
        }
    }
    // 2: solver
    let th = p.cfg.thorough;
    let f = if th { 4 } else { 1 };
    let nrest = rest.len();
    let rest = p.batch(&os, rest, Enc::Uf, 15_000, 5_000 * f, 400, "solver: bit-vectors + uninterpreted float ops");
    let rest = p.polys(&os, rest, false, "solver: linear reals over polynomial normal forms with rounding-error bounds");
    let rest = p.polys(&os, rest, true, "solver: linear reals over polynomial normal forms with rounding-error bounds");
    let rest = p.nra(&os, rest, 6_000 * f, "solver: nonlinear reals over polynomial normal forms with rounding-error bounds");
    let a1 = rest.len();
    let rest = p.batch(&os, rest, Enc::Real { nonlinear: false }, 15_000 * f, 8_000 * f, 24, "solver: linear reals with rounding-error variables");
    let a2 = rest.len();
    let rest = p.batch(&os, rest, Enc::Real { nonlinear: true }, 8_000 * f, 8_000 * f, 4, "solver: nonlinear reals with rounding-error variables");
    let a3 = rest.len();
    let rest = p.batch(&os, rest, Enc::Exact, 20_000 * f, 20_000 * f, 2, "solver: bit-precise IEEE-754");
    for k in &rest {
        p.nopen += 1;
        if p.open.len() < 20 {
            p.open.push(os[*k].msg.clone());
        }
        if p.cfg.verbose && p.nopen < 6 {
            let o = &os[*k];
            match &o.kind {
                Kind::Check(c) => eprintln!("OPEN {} {}", o.msg, p.e.t.show(*c, 7)),
                Kind::Close(a, b, _, _) => eprintln!("OPEN {}\n   {}\n   {}", o.msg, p.e.t.show(*a, 12), p.e.t.show(*b, 12)),
                Kind::Fault => eprintln!("OPEN fault {} pc {}", o.msg, o.pc.iter().map(|c| p.e.t.show(*c, 5)).collect::<Vec<_>>().join(" && ")),
            }
        }
    }
    // ---- report
    let e = &p.e;
    let st = &e.s.st;
    let mut fns: Vec<String> = e.funcs_run.iter().map(|f| e.demangled(*f)).filter(|s| s.contains("fundsp")).collect();
    fns.sort();
    fns.dedup();
    let mut j = String::from("{\n");
    let kv = |j: &mut String, k: &str, v: String| {
        let _ = writeln!(j, "  {}: {},", js(k), v);
    };
    kv(&mut j, "harness", js(&p.cfg.h));
    kv(&mut j, "paths", e.paths.to_string());
    kv(&mut j, "steps", e.steps.to_string());
    kv(&mut j, "forks", e.forks.to_string());
    kv(&mut j, "pruned", e.pruned.to_string());
    kv(&mut j, "terms", e.t.nodes.len().to_string());
    kv(&mut j, "vars", e.t.vars.len().to_string());
    kv(&mut j, "transitions", e.transitions.to_string());
    kv(&mut j, "feas_unknown", e.feas_unknown.to_string());
    kv(&mut j, "incomplete", format!("[{}]", e.incomplete.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "obligations", total.to_string());
    kv(&mut j, "after_simplify", os.len().to_string());
    kv(&mut j, "to_solver", nrest.to_string());
    kv(&mut j, "open_after", format!("[{}, {}, {}, {}]", a1, a2, a3, rest.len()));
    kv(&mut j, "decided_by", format!("{{{}}}", p.by.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "open", p.nopen.to_string());
    kv(&mut j, "open_msgs", format!("[{}]", p.open.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "queries", st.queries.to_string());
    kv(&mut j, "unsat", st.unsat.to_string());
    kv(&mut j, "sat", st.sat.to_string());
    kv(&mut j, "unknown", st.unknown.to_string());
    kv(&mut j, "solver_errors", st.errors.to_string());
    kv(&mut j, "solver_err", js(&e.s.last_err));
    kv(&mut j, "solver_ms", st.ms.to_string());
    kv(&mut j, "max_query_nodes", st.max_nodes.to_string());
    kv(&mut j, "solver_by", format!("{{{}}}", st.by.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "validated", validated.to_string());
    kv(&mut j, "validation_steps", vsteps.to_string());
    kv(&mut j, "mismatches", format!("[{}]", mismatches.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "reach", format!("{{{}}}", e.reach.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "samples", format!("[{}]", e.sample_states.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "functions", format!("[{}]", fns.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "messages", format!("{{{}}}", msgs.iter().take(60).map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    kv(&mut j, "unreproduced", format!("[{}]", p.unrepro.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    kv(
        &mut j,
        "violations",
        format!(
            "[{}]",
            p.viols
                .iter()
                .map(|v| format!("{{\"msg\": {}, \"replay\": {}, \"native\": {}, \"found_by\": {}}}", js(&v.msg), js(&v.file), js(&v.native), js(&v.by)))
                .collect::<Vec<_>>()
                .join(", ")
        ),
    );
    let _ = writeln!(j, "  \"wall_ms\": {}\n}}", t0.elapsed().as_millis());
    if p.cfg.out.is_empty() {
        println!("{}", j);
    } else {
        std::fs::write(&p.cfg.out, j).unwrap();
    }
}

fn tr_eq(a: u64, b: u64) -> bool {
    if a == b {
        return true;
    }
    // the sign of zero and NaN payloads are not observable
    let z = |x: u64| x == 0 || x == 1 << 63 || x == 1 << 31;
    if z(a) && z(b) {
        return true;
    }
    let n = |x: u64| f64::from_bits(x).is_nan() || (x >> 32 == 0 && f32::from_bits(x as u32).is_nan());
    n(a) && n(b)
}
