//! C05: dynamic networks built with operators mean the same as static graphs.
use crate::prim::*;
use crate::probe::*;
use crate::refexpr::*;
use crate::util::*;
use fundsp::hacker::*;

pub fn wrap<X: AudioNode + 'static>(x: An<X>) -> Net
where
    X::Inputs: Size<f32>,
    X::Outputs: Size<f32>,
{
    Net::wrap(Box::new(x))
}

macro_rules! net_cases {
    ($p:literal, $x:ident, $y:ident, $c:ident; $($n:ident : $e:expr;)*) => {
        mod ops {
            use super::*;
            $( #[inline(never)] pub fn $n() {
                let $c = f32_in(-2.0, 2.0);
                let _ = $c;
                let mut u: Net = {
                    macro_rules! $x { ($l:expr) => { wrap($l) } }
                    macro_rules! $y { ($l:expr) => { wrap($l) } }
                    $e
                };
                let r: E = {
                    macro_rules! $x { ($l:expr) => { leaf($l) } }
                    macro_rules! $y { ($l:expr) => { leaf($l) } }
                    $e
                };
                u.check();
                against_e(&mut u, r);
            } )*
        }
        harnesses! { $p;
            $( $n : { ops::$n() }; )*
            mixed_pipe: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) >> q21(0.25)), leaf(q12(0.5)) >> leaf(q21(0.25))) } else
                { against_e(&mut (q12(0.5) >> wrap(q21(0.25))), leaf(q12(0.5)) >> leaf(q21(0.25))) } };
            mixed_stack: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) | q21(0.25)), leaf(q12(0.5)) | leaf(q21(0.25))) } else
                { against_e(&mut (q12(0.5) | wrap(q21(0.25))), leaf(q12(0.5)) | leaf(q21(0.25))) } };
            mixed_branch: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) ^ q11(0.25)), leaf(q12(0.5)) ^ leaf(q11(0.25))) } else
                { against_e(&mut (q12(0.5) ^ wrap(q11(0.25))), leaf(q12(0.5)) ^ leaf(q11(0.25))) } };
            mixed_bus: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) & q12(0.25)), leaf(q12(0.5)) & leaf(q12(0.25))) } else
                { against_e(&mut (q12(0.5) & wrap(q12(0.25))), leaf(q12(0.5)) & leaf(q12(0.25))) } };
            mixed_add: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) + q22(0.25)), leaf(q12(0.5)) + leaf(q22(0.25))) } else
                { against_e(&mut (q12(0.5) + wrap(q22(0.25))), leaf(q12(0.5)) + leaf(q22(0.25))) } };
            mixed_sub: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) - q22(0.25)), leaf(q12(0.5)) - leaf(q22(0.25))) } else
                { against_e(&mut (q12(0.5) - wrap(q22(0.25))), leaf(q12(0.5)) - leaf(q22(0.25))) } };
            mixed_mul: { if choose(2) == 0 { against_e(&mut (wrap(q12(0.5)) * q22(0.25)), leaf(q12(0.5)) * leaf(q22(0.25))) } else
                { against_e(&mut (q12(0.5) * wrap(q22(0.25))), leaf(q12(0.5)) * leaf(q22(0.25))) } };
            scalar: { let c = f32_in(-2.0, 2.0); against(&mut Net::scalar(2, c), 0, 2, |_, n| (0..2).map(|_| (0..n).map(|_| c).collect()).collect(), 0.0) };
            passthrough: {
                // networks that route global inputs straight to outputs
                fn cross() -> Net { let mut n = Net::new(2, 3); n.pass_through(1, 0); n.pass_through(0, 1); n.pass_through(1, 2); n }
                fn rc(x: &[Vec<f32>]) -> Sig { vec![x[1].clone(), x[0].clone(), x[1].clone()] }
                match choose(7) {
                    0 => against(&mut (cross() >> wrap(q11(0.5)).stack_l()), 2, 3, |x, n| { let y = rc(x); (leaf(q11(0.5)) | leaf(pass()) | leaf(pass())).eval(&y, n) }, 1e-6),
                    1 => against(&mut (wrap(q12(0.5)) >> cross()), 1, 3, |x, n| rc(&leaf(q12(0.5)).eval(x, n)), 1e-6),
                    2 => against(&mut (cross() | wrap(q11(0.5))), 3, 4, |x, n| { let mut y = rc(&x[..2]); y.extend(leaf(q11(0.5)).eval(&x[2..], n)); y }, 1e-6),
                    3 => against(&mut (wrap(q11(0.5)) | cross()), 3, 4, |x, n| { let mut y = leaf(q11(0.5)).eval(&x[..1], n); y.extend(rc(&x[1..])); y }, 1e-6),
                    4 => against(&mut (cross() ^ wrap(q21(0.5))), 2, 4, |x, n| { let mut y = rc(x); y.extend(leaf(q21(0.5)).eval(x, n)); y }, 1e-6),
                    5 => against(&mut (cross() & cross()), 2, 3, |x, _| zip(rc(x), rc(x), |a, b| a + b), 1e-6),
                    _ => against(&mut ((cross() * cross()) >> cross3()), 4, 2, |x, _| { let y = zip(rc(&x[..2]), rc(&x[2..]), |a, b| a * b); vec![y[2].clone(), y[0].clone()] }, 1e-6),
                }
            };
            unconnected: {
                // unconnected outputs and inputs are zero
                fn half() -> Net { let mut n = Net::new(1, 2); let a = n.push(Box::new(q21(0.5))); n.connect_input(0, a, 1); n.connect_output(a, 0, 1); n }
                fn rh(x: &[Vec<f32>], n: usize) -> Sig { let z: Vec<f32> = (0..n).map(|_| 0.0).collect(); let y = leaf(q21(0.5)).eval(&[z.clone(), x[0].clone()], n); vec![z, y[0].clone()] }
                match choose(5) {
                    0 => against(&mut half(), 1, 2, |x, n| rh(x, n), 1e-6),
                    1 => against(&mut (half() >> wrap(q22(0.25))), 1, 2, |x, n| { let y = rh(x, n); leaf(q22(0.25)).eval(&y, n) }, 1e-6),
                    2 => against(&mut (half() + half()), 2, 2, |x, n| zip(rh(&x[..1], n), rh(&x[1..], n), |a, b| a + b), 1e-6),
                    3 => against(&mut (half() & (wrap(q12(0.25)))), 1, 2, |x, n| zip(rh(x, n), leaf(q12(0.25)).eval(x, n), |a, b| a + b), 1e-6),
                    _ => against(&mut (-half() * 0.5 + 0.25), 1, 2, |x, n| { let mut y = rh(x, n); for c in y.iter_mut() { for v in c.iter_mut() { *v = -*v * 0.5 + 0.25; } } y }, 1e-6),
                }
            };
            pipe_all_chain: {
                // plumbing helpers
                match choose(4) {
                    0 => { let mut n = Net::new(1, 2); let a = n.push(Box::new(q12(0.5))); let b = n.push(Box::new(q22(0.25)));
                        n.pipe_input(a); n.pipe_all(a, b); n.pipe_output(b); against_e(&mut n, leaf(q12(0.5)) >> leaf(q22(0.25))) }
                    1 => { let mut n = Net::new(2, 2); n.chain(Box::new(q22(0.5))); n.chain(Box::new(q22(0.25))); n.chain(Box::new(q22(0.75)));
                        against_e(&mut n, leaf(q22(0.5)) >> leaf(q22(0.25)) >> leaf(q22(0.75))) }
                    2 => { let mut n = Net::new(0, 1); n.chain(Box::new(q01(0.5))); n.chain(Box::new(q11(0.25))); against_e(&mut n, leaf(q01(0.5)) >> leaf(q11(0.25))) }
                    _ => { let (mut n, a) = Net::wrap_id(Box::new(q22(0.5))); check(n.contains(a), "wrapped node is in the net"); against_e(&mut n, leaf(q22(0.5))) }
                }
            };
            thru_net: { let mut n = Net::new(3, 2); let a = n.push(Box::new(q21(0.5))); n.connect_input(2, a, 0); n.connect_input(0, a, 1); n.connect_output(a, 0, 1); n.pass_through(2, 0);
                against(&mut !n, 3, 3, |x, n| { let y = leaf(q21(0.5)).eval(&[x[2].clone(), x[0].clone()], n); vec![x[2].clone(), y[0].clone(), x[2].clone()] }, 1e-6) };
        }
    };
}
trait StackL { fn stack_l(self) -> Net; }
impl StackL for Net { fn stack_l(self) -> Net { self | multipass::<U2>() } }
fn cross3() -> Net { let mut n = Net::new(3, 2); n.pass_through(2, 0); n.pass_through(0, 1); n }
expressions!(net_cases, "c05");
