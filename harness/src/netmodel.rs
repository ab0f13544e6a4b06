//! Model of a network under edits, shared by the harnesses.
use crate::prim::*;
use crate::probe::*;
use crate::util::*;
use fundsp::hacker::*;
use fundsp::net::{NodeId, Source};

#[derive(Clone, Copy, PartialEq)]
pub enum S {
    Z,
    G(usize),
    L(usize, usize),
}
pub struct V {
    id: NodeId,
    unit: Box<dyn AudioUnit>,
    src: Vec<S>,
    live: bool,
    /// replacement that is not committed yet
    pend: Option<Box<dyn AudioUnit>>,
    /// incoming unit of a crossfade and its age in samples
    next: Option<(Box<dyn AudioUnit>, usize)>,
    /// crossfade that is not committed yet
    queued: Option<Box<dyn AudioUnit>>,
    /// what the backend was told last
    c_src: Vec<S>,
    c_live: bool,
}
/// length of crossfades in samples
pub const XF: f32 = 4.0;
/// The network and the model of its graph. Nodes are never reused in the model.
pub struct M {
    net: Net,
    v: Vec<V>,
    out: Vec<S>,
    ni: usize,
    gain: f32,
    pub back: Option<NetBackend>,
    c_out: Vec<S>,
    pub faded: bool,
}
const SHAPES: usize = 4;
fn node(k: usize, g: f32) -> Box<dyn AudioUnit> {
    match k {
        0 => Box::new(q11(g)),
        1 => Box::new(q12(g)),
        2 => Box::new(q21(g)),
        3 => Box::new(q22(g)),
        _ => Box::new(q01(g)),
    }
}
impl M {
    pub fn new(ni: usize, no: usize) -> M {
        M { net: Net::new(ni, no), v: vec![], out: vec![S::Z; no], ni, gain: 0.125, back: None, c_out: vec![], faded: false }
    }
    fn next_gain(&mut self) -> f32 {
        self.gain += 0.125;
        self.gain
    }
    fn add(&mut self, id: NodeId, unit: Box<dyn AudioUnit>) -> usize {
        let n = unit.inputs();
        self.v.push(V { id, unit, src: vec![S::Z; n], live: true, pend: None, next: None, queued: None, c_src: vec![], c_live: false });
        self.v.len() - 1
    }
    pub fn push(&mut self, k: usize) -> usize {
        let g = self.next_gain();
        let id = self.net.push(node(k, g));
        self.add(id, node(k, g))
    }
    pub fn chain(&mut self, k: usize) -> usize {
        let g = self.next_gain();
        let first = self.net.size() == 0;
        let id = self.net.chain(node(k, g));
        let t = self.add(id, node(k, g));
        for c in 0..self.v[t].src.len() {
            self.v[t].src[c] = if first {
                if self.ni > 0 { S::G(c % self.ni) } else { S::Z }
            } else if self.out.is_empty() {
                S::Z
            } else {
                self.out[c % self.out.len()]
            };
        }
        self.m_pipe_output(t);
        t
    }
    fn outs(&self, t: usize) -> usize {
        self.v[t].unit.outputs()
    }
    fn ins(&self, t: usize) -> usize {
        self.v[t].src.len()
    }
    fn m_pipe_output(&mut self, t: usize) {
        for c in 0..self.out.len() {
            self.out[c] = S::L(t, c % self.outs(t));
        }
    }
    pub fn live(&self) -> Vec<usize> {
        (0..self.v.len()).filter(|&t| self.v[t].live).collect()
    }
    /// a node that is in the network
    fn any(&self) -> usize {
        let l = self.live();
        assume(!l.is_empty());
        l[choose(l.len())]
    }
    fn any_input(&self) -> (usize, usize) {
        let l: Vec<(usize, usize)> = self.live().iter().flat_map(|&t| (0..self.ins(t)).map(move |c| (t, c))).collect();
        assume(!l.is_empty());
        l[choose(l.len())]
    }
    fn any_output(&self) -> (usize, usize) {
        let l: Vec<(usize, usize)> = self.live().iter().flat_map(|&t| (0..self.outs(t)).map(move |c| (t, c))).collect();
        assume(!l.is_empty());
        l[choose(l.len())]
    }
    fn ext(&self, s: S) -> Source {
        match s {
            S::Z => Source::Zero,
            S::G(i) => Source::Global(i),
            S::L(t, c) => Source::Local(self.v[t].id, c),
        }
    }
    fn replace_sources(&mut self, t: usize, link: bool) {
        let own = self.v[t].src.clone();
        let f = |s: S| match s {
            S::L(u, c) if u == t => {
                if link { own[c] } else { S::Z }
            }
            s => s,
        };
        for u in 0..self.v.len() {
            for c in 0..self.v[u].src.len() {
                self.v[u].src[c] = f(self.v[u].src[c]);
            }
        }
        for c in 0..self.out.len() {
            self.out[c] = f(self.out[c]);
        }
        self.v[t].live = false;
    }
    /// Performs one edit of kind `k` with any parameters.
    pub fn op(&mut self, k: usize) {
        match k {
            0 => {
                let (s, sp) = self.any_output();
                let (t, tp) = self.any_input();
                assume(s != t);
                self.net.connect(self.v[s].id, sp, self.v[t].id, tp);
                self.v[t].src[tp] = S::L(s, sp);
            }
            1 => {
                let (t, tp) = self.any_input();
                let g = choose(self.ni);
                self.net.connect_input(g, self.v[t].id, tp);
                self.v[t].src[tp] = S::G(g);
            }
            2 => {
                let (s, sp) = self.any_output();
                let o = choose(self.out.len());
                self.net.connect_output(self.v[s].id, sp, o);
                self.out[o] = S::L(s, sp);
            }
            3 => {
                let (i, o) = (choose(self.ni), choose(self.out.len()));
                self.net.pass_through(i, o);
                self.out[o] = S::G(i);
            }
            4 => {
                let (t, tp) = self.any_input();
                self.net.disconnect(self.v[t].id, tp);
                self.v[t].src[tp] = S::Z;
            }
            5 => {
                let o = choose(self.out.len());
                self.net.disconnect_output(o);
                self.out[o] = S::Z;
            }
            6 => {
                let t = self.any();
                let u = self.net.remove(self.v[t].id);
                check(u.inputs() == self.ins(t) && u.outputs() == self.outs(t), "removed unit is returned");
                self.replace_sources(t, false);
            }
            7 => {
                let t = self.any();
                assume(self.ins(t) == self.outs(t));
                self.net.remove_link(self.v[t].id);
                self.replace_sources(t, true);
            }
            8 => {
                let t = self.any();
                let g = self.next_gain();
                let k = match (self.ins(t), self.outs(t)) {
                    (1, 1) => 0,
                    (1, 2) => 1,
                    (2, 1) => 2,
                    (2, 2) => 3,
                    _ => 4,
                };
                self.net.replace(self.v[t].id, node(k, g));
                if self.back.is_some() {
                    self.v[t].pend = Some(node(k, g));
                    self.v[t].queued = None;
                } else {
                    self.v[t].unit = node(k, g);
                    self.v[t].next = None;
                }
            }
            9 => {
                let (t, tp) = self.any_input();
                let s = match choose(3) {
                    0 => S::Z,
                    1 => S::G(choose(self.ni)),
                    _ => {
                        let (s, sp) = self.any_output();
                        assume(s != t);
                        S::L(s, sp)
                    }
                };
                let e = self.ext(s);
                self.net.set_source(self.v[t].id, tp, e);
                self.v[t].src[tp] = s;
            }
            10 => {
                let o = choose(self.out.len());
                let s = match choose(3) {
                    0 => S::Z,
                    1 => S::G(choose(self.ni)),
                    _ => {
                        let (s, sp) = self.any_output();
                        S::L(s, sp)
                    }
                };
                let e = self.ext(s);
                self.net.set_output_source(o, e);
                self.out[o] = s;
            }
            11 => {
                let t = self.any();
                self.net.pipe_input(self.v[t].id);
                for c in 0..self.ins(t) {
                    self.v[t].src[c] = S::G(c % self.ni);
                }
            }
            12 => {
                let t = self.any();
                self.net.pipe_output(self.v[t].id);
                self.m_pipe_output(t);
            }
            13 => {
                let (s, t) = (self.any(), self.any());
                self.net.pipe_all(self.v[s].id, self.v[t].id);
                if s != t {
                    for c in 0..self.ins(t) {
                        self.v[t].src[c] = S::L(s, c % self.outs(s));
                    }
                }
            }
            16 => {
                let t = self.any();
                assume(self.v[t].next.is_none() && self.v[t].queued.is_none());
                let g = self.next_gain();
                let k = match (self.ins(t), self.outs(t)) {
                    (1, 1) => 0,
                    (1, 2) => 1,
                    (2, 1) => 2,
                    (2, 2) => 3,
                    _ => 4,
                };
                self.net.crossfade(self.v[t].id, Fade::Smooth, XF / 44100.0, node(k, g));
                self.faded = true;
                if self.back.is_some() {
                    self.v[t].queued = Some(node(k, g));
                } else {
                    self.v[t].next = Some((node(k, g), 0));
                }
            }
            17 => {
                let k = choose(SHAPES);
                let g = self.next_gain();
                let id = self.net.fade_in(Fade::Smooth, XF / 44100.0, node(k, g));
                self.faded = true;
                let ni = node(k, g).inputs();
                let no = node(k, g).outputs();
                let t = self.add(id, Box::new(DummyUnit::new(ni, no)));
                if self.back.is_some() {
                    self.v[t].queued = Some(node(k, g));
                } else {
                    self.v[t].next = Some((node(k, g), 0));
                }
                // make it audible
                self.net.pipe_output(id);
                self.m_pipe_output(t);
            }
            // a setting for a node that the backend already knows
            18 => {
                let t = self.any();
                assume(self.back.is_none() || self.v[t].c_live);
                assume(self.v[t].next.is_none());
                let x = f32_in(-1.0, 1.0);
                self.net.set(Setting::value(x).node(self.v[t].id));
                self.v[t].unit.set(Setting::value(x));
            }
            14 => {
                let k = choose(SHAPES);
                self.chain(k);
            }
            _ => {
                let k = choose(SHAPES + 1);
                self.push(k);
            }
        }
    }
    /// Node order, or none if there is a cycle.
    fn order(&self) -> Option<Vec<usize>> {
        let mut o: Vec<usize> = vec![];
        let l = self.live();
        loop {
            let before = o.len();
            for &t in &l {
                if !o.contains(&t) && self.v[t].src.iter().all(|s| match s { S::L(u, _) => o.contains(u), _ => true }) {
                    o.push(t);
                }
            }
            if o.len() == l.len() {
                return Some(o);
            }
            if o.len() == before {
                return None;
            }
        }
    }
    /// Creates the backend.
    pub fn start(&mut self) {
        self.back = Some(self.net.backend());
        self.snapshot();
    }
    fn snapshot(&mut self) {
        for v in self.v.iter_mut() {
            v.c_src = v.src.clone();
            v.c_live = v.live;
            if let Some(u) = v.pend.take() {
                v.unit = u;
                v.next = None;
            }
            if let Some(u) = v.queued.take() {
                v.next = Some((u, 0));
            }
        }
        self.c_out = self.out.clone();
    }
    pub fn commit(&mut self) {
        assume(self.order().is_some());
        self.net.commit();
        self.snapshot();
    }
    /// The queries report the graph of the model.
    fn structure(&self) {
        let l = self.live();
        check(self.net.size() == l.len(), "number of nodes");
        for t in 0..self.v.len() {
            check(self.net.contains(self.v[t].id) == self.v[t].live, "node is in the network");
        }
        for &t in &l {
            check(self.net.inputs_in(self.v[t].id) == self.ins(t) && self.net.outputs_in(self.v[t].id) == self.outs(t), "node arity");
            for c in 0..self.ins(t) {
                let w = self.ext(self.v[t].src[c]);
                check(self.net.source(self.v[t].id, c) == w, "source of a node input");
            }
        }
        for c in 0..self.out.len() {
            let w = self.ext(self.out[c]);
            check(self.net.output_source(c) == w, "source of a network output");
        }
    }
    /// Compares structure and behaviour over `n` samples. Returns false if there is a cycle.
    pub fn compare(&mut self, n: usize, block: bool) -> bool {
        self.structure();
        let order = self.order();
        check(self.net.error().is_some() == order.is_none(), "a cycle is an error and nothing else is");
        if order.is_none() {
            return false;
        }
        self.net.check();
        self.run(n, block);
        true
    }
    /// Processes the network or its backend and the model of what it was told last.
    pub fn run(&mut self, n: usize, block: bool) {
        if self.back.is_none() {
            self.snapshot();
        }
        let r = vec![A; self.ni];
        let x = signal(&r, n);
        let u: &mut dyn AudioUnit = match &mut self.back { Some(b) => b, None => &mut self.net };
        let y = if block { by_block(u, &x, 0, &[n]) } else { by_tick(u, &x, n) };
        let mut order: Vec<usize> = vec![];
        let l: Vec<usize> = (0..self.v.len()).filter(|&t| self.v[t].c_live).collect();
        while order.len() < l.len() {
            for &t in &l {
                if !order.contains(&t) && self.v[t].c_src.iter().all(|s| match s { S::L(u, _) => order.contains(u), _ => true }) {
                    order.push(t);
                }
            }
        }
        let tol = if self.faded { 2e-5 } else { 1e-5 };
        for i in 0..n {
            let mut val: Vec<Vec<f32>> = self.v.iter().map(|v| vec![0.0; v.unit.outputs()]).collect();
            let get = |val: &Vec<Vec<f32>>, s: S| match s {
                S::Z => 0.0,
                S::G(c) => x[c][i],
                S::L(t, c) => val[t][c],
            };
            for &t in &order {
                let fi: Vec<f32> = self.v[t].c_src.iter().map(|&s| get(&val, s)).collect();
                let mut fo = vec![0.0; self.outs(t)];
                self.v[t].unit.tick(&fi, &mut fo);
                let mut done = false;
                if let Some((u, age)) = &mut self.v[t].next {
                    let mut go = fo.clone();
                    u.tick(&fi, &mut go);
                    let p = *age as f32 / XF;
                    *age += 1;
                    for c in 0..fo.len() {
                        fo[c] = fo[c] * smooth5(1.0 - p) + go[c] * smooth5(p);
                    }
                    done = *age as f32 >= XF;
                }
                if done {
                    self.v[t].unit = self.v[t].next.take().unwrap().0;
                }
                val[t] = fo;
            }
            for c in 0..self.c_out.len() {
                close(y[c][i], get(&val, self.c_out[c]), tol, "output differs from the graph that the edits describe");
            }
        }
    }
}
/// 2 inputs, 2 outputs, four nodes connected in a diamond.
pub fn diamond() -> M {
    let mut m = M::new(2, 2);
    let a = m.push(1);
    let b = m.push(0);
    let c = m.push(2);
    let d = m.push(3);
    m.net.connect_input(0, m.v[a].id, 0);
    m.v[a].src[0] = S::G(0);
    m.net.connect(m.v[a].id, 1, m.v[b].id, 0);
    m.v[b].src[0] = S::L(a, 1);
    m.net.connect(m.v[a].id, 0, m.v[c].id, 0);
    m.v[c].src[0] = S::L(a, 0);
    m.net.connect(m.v[b].id, 0, m.v[c].id, 1);
    m.v[c].src[1] = S::L(b, 0);
    m.net.connect(m.v[c].id, 0, m.v[d].id, 1);
    m.v[d].src[1] = S::L(c, 0);
    m.net.connect_input(1, m.v[d].id, 0);
    m.v[d].src[0] = S::G(1);
    m.net.connect_output(m.v[d].id, 1, 0);
    m.out[0] = S::L(d, 1);
    m.net.connect_output(m.v[b].id, 0, 1);
    m.out[1] = S::L(b, 0);
    m
}
/// nodes pushed in reverse order of data flow
pub fn backwards() -> M {
    let mut m = M::new(1, 2);
    let d = m.push(1);
    let c = m.push(3);
    let a = m.push(0);
    m.net.pipe_input(m.v[a].id);
    m.v[a].src[0] = S::G(0);
    m.net.pipe_all(m.v[a].id, m.v[c].id);
    m.v[c].src = vec![S::L(a, 0), S::L(a, 0)];
    m.net.connect(m.v[c].id, 1, m.v[d].id, 0);
    m.v[d].src[0] = S::L(c, 1);
    m.net.pipe_output(m.v[d].id);
    m.out = vec![S::L(d, 0), S::L(d, 1)];
    m
}
