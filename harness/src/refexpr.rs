//! Reference semantics of graph expressions over whole signals: every leaf runs on its own.
use crate::prim::*;
use crate::util::*;
use fundsp::hacker::*;
use std::ops::*;

pub type Sig = Vec<Vec<f32>>;
#[derive(Clone, Copy)]
pub enum Bop {
    Add,
    Sub,
    Mul,
}
impl Bop {
    pub fn f(self) -> fn(f32, f32) -> f32 {
        match self {
            Bop::Add => |a, b| a + b,
            Bop::Sub => |a, b| a - b,
            Bop::Mul => |a, b| a * b,
        }
    }
}
#[derive(Clone, Copy)]
pub enum Uop {
    Neg,
    Add(f32),
    NegAdd(f32),
    Mul(f32),
}
impl Uop {
    pub fn f(self, a: f32) -> f32 {
        match self {
            Uop::Neg => -a,
            Uop::Add(c) => a + c,
            Uop::NegAdd(c) => c - a,
            Uop::Mul(c) => a * c,
        }
    }
}
pub enum E {
    Leaf(Box<dyn AudioUnit>),
    Pipe(Box<E>, Box<E>),
    Stack(Box<E>, Box<E>),
    Branch(Box<E>, Box<E>),
    Bus(Box<E>, Box<E>),
    Bin(Bop, Box<E>, Box<E>),
    Un(Uop, Box<E>),
    Thru(Box<E>),
}
pub fn leaf<X: AudioNode + 'static>(x: An<X>) -> E
where
    X::Inputs: Size<f32>,
    X::Outputs: Size<f32>,
{
    E::Leaf(Box::new(x))
}
fn bx(e: E) -> Box<E> {
    Box::new(e)
}
impl E {
    pub fn ins(&self) -> usize {
        match self {
            E::Leaf(u) => u.inputs(),
            E::Pipe(a, _) => a.ins(),
            E::Stack(a, b) => a.ins() + b.ins(),
            E::Branch(a, _) | E::Bus(a, _) => a.ins(),
            E::Bin(_, a, b) => a.ins() + b.ins(),
            E::Un(_, a) | E::Thru(a) => a.ins(),
        }
    }
    pub fn outs(&self) -> usize {
        match self {
            E::Leaf(u) => u.outputs(),
            E::Pipe(_, b) => b.outs(),
            E::Stack(a, b) | E::Branch(a, b) => a.outs() + b.outs(),
            E::Bus(a, _) => a.outs(),
            E::Bin(_, a, _) => a.outs(),
            E::Un(_, a) => a.outs(),
            E::Thru(a) => a.ins(),
        }
    }
    pub fn eval(&mut self, x: &[Vec<f32>], n: usize) -> Sig {
        match self {
            E::Leaf(u) => by_tick(&mut **u, x, n),
            E::Pipe(a, b) => {
                let y = a.eval(x, n);
                b.eval(&y, n)
            }
            E::Stack(a, b) => {
                let k = a.ins();
                let mut y = a.eval(&x[..k], n);
                y.extend(b.eval(&x[k..], n));
                y
            }
            E::Branch(a, b) => {
                let mut y = a.eval(x, n);
                y.extend(b.eval(x, n));
                y
            }
            E::Bus(a, b) => zip(a.eval(x, n), b.eval(x, n), |p, q| p + q),
            E::Bin(f, a, b) => {
                let k = a.ins();
                let y = a.eval(&x[..k], n);
                let z = b.eval(&x[k..], n);
                zip(y, z, f.f())
            }
            E::Un(f, a) => {
                let mut y = a.eval(x, n);
                for c in y.iter_mut() {
                    for v in c.iter_mut() {
                        *v = f.f(*v);
                    }
                }
                y
            }
            E::Thru(a) => {
                let k = a.ins();
                let mut y = a.eval(x, n);
                while y.len() > k {
                    y.pop();
                }
                for c in y.len()..k {
                    y.push(x[c].clone());
                }
                y
            }
        }
    }
}
pub fn zip(a: Sig, b: Sig, f: fn(f32, f32) -> f32) -> Sig {
    let mut o = vec![];
    for c in 0..a.len() {
        let mut v = vec![];
        for i in 0..a[c].len() {
            v.push(f(a[c][i], b[c][i]));
        }
        o.push(v);
    }
    o
}
impl Shr for E {
    type Output = E;
    fn shr(self, o: E) -> E {
        E::Pipe(bx(self), bx(o))
    }
}
impl BitOr for E {
    type Output = E;
    fn bitor(self, o: E) -> E {
        E::Stack(bx(self), bx(o))
    }
}
impl BitXor for E {
    type Output = E;
    fn bitxor(self, o: E) -> E {
        E::Branch(bx(self), bx(o))
    }
}
impl BitAnd for E {
    type Output = E;
    fn bitand(self, o: E) -> E {
        E::Bus(bx(self), bx(o))
    }
}
impl Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::Bin(Bop::Add, bx(self), bx(o))
    }
}
impl Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E::Bin(Bop::Sub, bx(self), bx(o))
    }
}
impl Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E::Bin(Bop::Mul, bx(self), bx(o))
    }
}
impl Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E::Un(Uop::Neg, bx(self))
    }
}
impl Not for E {
    type Output = E;
    fn not(self) -> E {
        E::Thru(bx(self))
    }
}
impl Add<f32> for E {
    type Output = E;
    fn add(self, c: f32) -> E {
        E::Un(Uop::Add(c), bx(self))
    }
}
impl Add<E> for f32 {
    type Output = E;
    fn add(self, e: E) -> E {
        E::Un(Uop::Add(self), bx(e))
    }
}
impl Sub<f32> for E {
    type Output = E;
    fn sub(self, c: f32) -> E {
        E::Un(Uop::Add(-c), bx(self))
    }
}
impl Sub<E> for f32 {
    type Output = E;
    fn sub(self, e: E) -> E {
        E::Un(Uop::NegAdd(self), bx(e))
    }
}
impl Mul<f32> for E {
    type Output = E;
    fn mul(self, c: f32) -> E {
        E::Un(Uop::Mul(c), bx(self))
    }
}
impl Mul<E> for f32 {
    type Output = E;
    fn mul(self, e: E) -> E {
        E::Un(Uop::Mul(self), bx(e))
    }
}

/// Runs `u` by block or by sample on symbolic inputs and compares with a reference function.
pub fn against(u: &mut dyn AudioUnit, ins: usize, outs: usize, mut f: impl FnMut(&[Vec<f32>], usize) -> Sig, tol: f32) {
    check(u.inputs() == ins, "number of inputs");
    check(u.outputs() == outs, "number of outputs");
    let (n, sizes): (usize, &[usize]) = if choose(2) == 0 { (67, &[64, 2, 1]) } else { (9, &[]) };
    let mut r = vec![];
    for _ in 0..ins {
        r.push(A);
    }
    let x = signal(&r, n);
    let y = if sizes.is_empty() { by_tick(u, &x, n) } else { by_block(u, &x, 0, sizes) };
    let w = f(&x, n);
    check(w.len() == outs, "number of output channels");
    near(&y, &w, tol, "output differs from the meaning of the expression");
}
pub fn against_e(u: &mut dyn AudioUnit, mut e: E) {
    let (i, o) = (e.ins(), e.outs());
    against(u, i, o, |x, n| e.eval(x, n), 1e-6)
}

/// Expressions over leaves `x!(..)` and `y!(..)`, expanded by the callback macro.
#[macro_export]
macro_rules! expressions {
    ($cb:ident, $p:literal) => {
        $cb! { $p, x, y, c;
            pipe11: x!(q11(0.5)) >> y!(q11(0.25));
            pipe_wide: x!(q12(0.5)) >> y!(q21(0.25));
            pipe22: x!(q22(0.5)) >> y!(q22(0.25));
            pipe_gen: x!(q02(0.5)) >> y!(q22(0.25));
            stack11: x!(q11(0.5)) | y!(q11(0.25));
            stack_uneven: x!(q12(0.5)) | y!(q21(0.25));
            stack_uneven2: x!(q21(0.5)) | y!(q12(0.25));
            stack_gen: x!(q01(0.5)) | y!(q12(0.25));
            branch11: x!(q11(0.5)) ^ y!(q11(0.25));
            branch_uneven: x!(q12(0.5)) ^ y!(q11(0.25));
            branch_uneven2: x!(q21(0.5)) ^ y!(q22(0.25));
            branch_gen: x!(q01(0.5)) ^ y!(q02(0.25));
            bus11: x!(q11(0.5)) & y!(q11(0.25));
            bus22: x!(q22(0.5)) & y!(q22(0.25));
            bus12: x!(q12(0.5)) & y!(q12(0.25));
            bus_gen: x!(q02(0.5)) & y!(q02(0.25));
            sum11: x!(q11(0.5)) + y!(q11(0.25));
            sum_uneven: x!(q22(0.5)) + y!(q12(0.25));
            sum_gen: x!(q02(0.5)) + y!(q22(0.25));
            sub11: x!(q11(0.5)) - y!(q11(0.25));
            sub_uneven: x!(q12(0.5)) - y!(q22(0.25));
            mul11: x!(q11(0.5)) * y!(q11(0.25));
            mul_uneven: x!(q12(0.5)) * y!(q22(0.25));
            neg1: -x!(q11(0.5));
            neg2: -x!(q12(0.5));
            thru_more: !x!(q12(0.5));
            thru_less: !x!(q21(0.5));
            thru_same: !x!(q22(0.5));
            add_r: x!(q12(0.5)) + c;
            add_l: c + x!(q12(0.5));
            sub_r: x!(q12(0.5)) - c;
            sub_l: c - x!(q12(0.5));
            mul_r: x!(q12(0.5)) * c;
            mul_l: c * x!(q12(0.5));
            deep1: (x!(q11(0.5)) | x!(q12(0.25))) >> (x!(q21(0.75)) | x!(q11(0.125)));
            deep2: x!(q12(0.5)) >> (x!(q11(0.25)) + x!(q11(0.75)));
            deep3: (x!(q11(0.5)) ^ (x!(q11(0.25)) >> x!(q11(0.75)))) >> !x!(q21(0.125));
            deep4: (x!(q11(0.5)) & (x!(q11(0.25)) * c)) >> (x!(q11(0.75)) ^ x!(q12(0.125)));
            deep5: !(!x!(q21(0.5)) >> x!(q21(0.25))) >> !x!(q21(0.75)) >> (x!(q11(0.5)) | -x!(q11(0.125)));
            deep6: (x!(q02(0.5)) >> x!(q22(0.25))) * (x!(q12(0.75)) - x!(q02(0.125)));
            deep7: (x!(q22(0.5)) & (x!(q21(0.25)) ^ x!(q21(0.75)))) >> (x!(q11(0.5)) & x!(q11(0.125)) | x!(q11(0.375)));
        }
    };
}
