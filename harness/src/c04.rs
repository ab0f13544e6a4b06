//! C04: meaning of graph operators, combinators and plumbing nodes.
use crate::prim::*;
use crate::probe::*;
use crate::refexpr::*;
use crate::util::*;
use fundsp::hacker::*;

fn bx(g: f32) -> Box<dyn AudioUnit> {
    Box::new(q11(g))
}
/// gain of the i-th node of an indexed combinator
fn gi(i: u64) -> f32 {
    0.25 * i as f32 + 0.125
}
fn gf(i: f32) -> f32 {
    0.5 * i + 0.125
}
fn gfi(i: u64, n: u64) -> f32 {
    gf(i as f32 / (n - 1) as f32)
}

macro_rules! static_cases {
    ($p:literal, $x:ident, $y:ident, $c:ident; $($n:ident : $e:expr;)*) => {
        pub const NAMES: &[&str] = &[$(stringify!($n)),*];
        mod ops {
            use super::*;
            $( #[inline(never)] pub fn $n() {
                let $c = f32_in(-2.0, 2.0);
                let _ = $c;
                let mut u = {
                    macro_rules! $x { ($l:expr) => { $l } }
                    macro_rules! $y { ($l:expr) => { $l } }
                    $e
                };
                let r: E = {
                    macro_rules! $x { ($l:expr) => { leaf($l) } }
                    macro_rules! $y { ($l:expr) => { leaf($l) } }
                    $e
                };
                against_e(&mut u, r);
            } )*
        }
        harnesses! { $p;
            $( $n : { ops::$n() }; )*
            sum_of: { against(&mut (q12(0.5) + 0.25), 1, 2, |x, n| {
                let mut y = leaf(q12(0.5)).eval(x, n);
                for c in y.iter_mut() { for v in c.iter_mut() { *v += 0.25; } }
                y }, 1e-6) };
            busi: { against(&mut busi::<U3, _, _>(|i| q12(gi(i))), 1, 2, |x, n| {
                let (a, b, c) = (leaf(q12(gi(0))).eval(x, n), leaf(q12(gi(1))).eval(x, n), leaf(q12(gi(2))).eval(x, n));
                zip(zip(a, b, |p, q| p + q), c, |p, q| p + q) }, 1e-6) };
            busf: { against(&mut busf::<U3, _, _>(|i| q12(gf(i))), 1, 2, |x, n| {
                let (a, b, c) = (leaf(q12(gfi(0, 3))).eval(x, n), leaf(q12(gfi(1, 3))).eval(x, n), leaf(q12(gfi(2, 3))).eval(x, n));
                zip(zip(a, b, |p, q| p + q), c, |p, q| p + q) }, 1e-6) };
            stacki: { against(&mut stacki::<U3, _, _>(|i| q21(gi(i))), 6, 3, |x, n| {
                let mut y = vec![];
                for i in 0..3 { y.extend(leaf(q21(gi(i))).eval(&x[2 * i as usize..2 * i as usize + 2], n)); }
                y }, 1e-6) };
            stacki12: { against(&mut stacki::<U3, _, _>(|i| q12(gi(i))), 3, 6, |x, n| {
                let mut y = vec![];
                for i in 0..3 { y.extend(leaf(q12(gi(i))).eval(&x[i as usize..i as usize + 1], n)); }
                y }, 1e-6) };
            stackf: { against(&mut stackf::<U3, _, _>(|i| q12(gf(i))), 3, 6, |x, n| {
                let mut y = vec![];
                for i in 0..3 { y.extend(leaf(q12(gfi(i, 3))).eval(&x[i as usize..i as usize + 1], n)); }
                y }, 1e-6) };
            branchi: { against(&mut branchi::<U3, _, _>(|i| q12(gi(i))), 1, 6, |x, n| {
                let mut y = vec![];
                for i in 0..3 { y.extend(leaf(q12(gi(i))).eval(x, n)); }
                y }, 1e-6) };
            branchf: { against(&mut branchf::<U3, _, _>(|i| q21(gf(i))), 2, 3, |x, n| {
                let mut y = vec![];
                for i in 0..3 { y.extend(leaf(q21(gfi(i, 3))).eval(x, n)); }
                y }, 1e-6) };
            sumi: { against(&mut sumi::<U3, _, _>(|i| q12(gi(i))), 3, 2, |x, n| {
                let (a, b, c) = (leaf(q12(gi(0))).eval(&x[..1], n), leaf(q12(gi(1))).eval(&x[1..2], n), leaf(q12(gi(2))).eval(&x[2..], n));
                zip(zip(a, b, |p, q| p + q), c, |p, q| p + q) }, 1e-6) };
            sumi21: { against(&mut sumi::<U2, _, _>(|i| q21(gi(i))), 4, 1, |x, n| {
                zip(leaf(q21(gi(0))).eval(&x[..2], n), leaf(q21(gi(1))).eval(&x[2..], n), |p, q| p + q) }, 1e-6) };
            sumf: { against(&mut sumf::<U3, _, _>(|i| q11(gf(i))), 3, 1, |x, n| {
                let (a, b, c) = (leaf(q11(gfi(0, 3))).eval(&x[..1], n), leaf(q11(gfi(1, 3))).eval(&x[1..2], n), leaf(q11(gfi(2, 3))).eval(&x[2..], n));
                zip(zip(a, b, |p, q| p + q), c, |p, q| p + q) }, 1e-6) };
            pipei: { against(&mut pipei::<U3, _, _>(|i| q22(gi(i))), 2, 2, |x, n| {
                let a = leaf(q22(gi(0))).eval(x, n);
                let b = leaf(q22(gi(1))).eval(&a, n);
                leaf(q22(gi(2))).eval(&b, n) }, 1e-6) };
            pipef: { against(&mut pipef::<U3, _, _>(|i| q11(gf(i))), 1, 1, |x, n| {
                let a = leaf(q11(gfi(0, 3))).eval(x, n);
                let b = leaf(q11(gfi(1, 3))).eval(&a, n);
                leaf(q11(gfi(2, 3))).eval(&b, n) }, 1e-6) };
            chain_fns: { against(&mut pipe(stack(q11(0.5), q11(0.25)), sum(q11(0.125), q11(0.75))), 2, 1, |x, n| {
                ((leaf(q11(0.5)) | leaf(q11(0.25))) >> (leaf(q11(0.125)) + leaf(q11(0.75)))).eval(x, n) }, 1e-6) };
            branch_fns: { against(&mut (branch(q11(0.5), bus(q11(0.25), q11(0.375))) >> product(q11(0.125), thru(q11(0.75)))), 1, 1, |x, n| {
                ((leaf(q11(0.5)) ^ (leaf(q11(0.25)) & leaf(q11(0.375)))) >> (leaf(q11(0.125)) * leaf(q11(0.75)))).eval(x, n) }, 1e-6) };
            split3: { against(&mut split::<U3>(), 1, 3, |x, _| vec![x[0].clone(), x[0].clone(), x[0].clone()], 0.0) };
            multisplit23: { against(&mut multisplit::<U2, U3>(), 2, 6, |x, _| vec![x[0].clone(), x[1].clone(), x[0].clone(), x[1].clone(), x[0].clone(), x[1].clone()], 0.0) };
            join3: { against(&mut join::<U3>(), 3, 1, |x, n| {
                vec![(0..n).map(|i| (x[0][i] + x[1][i] + x[2][i]) / 3.0).collect()] }, 1e-6) };
            multijoin23: { against(&mut multijoin::<U2, U3>(), 6, 2, |x, n| {
                (0..2).map(|c| (0..n).map(|i| (x[c][i] + x[c + 2][i] + x[c + 4][i]) / 3.0).collect()).collect() }, 1e-6) };
            reverse3: { against(&mut reverse::<U3>(), 3, 3, |x, _| vec![x[2].clone(), x[1].clone(), x[0].clone()], 0.0) };
            pass: { against(&mut pass(), 1, 1, |x, _| x.to_vec(), 0.0) };
            multipass3: { against(&mut multipass::<U3>(), 3, 3, |x, _| x.to_vec(), 0.0) };
            sink: { against(&mut (sink() | pass()), 2, 1, |x, _| vec![x[1].clone()], 0.0) };
            multisink2: { against(&mut (pass() | multisink::<U2>() | pass()), 4, 2, |x, _| vec![x[0].clone(), x[3].clone()], 0.0) };
            zero: { against(&mut (zero() | pass()), 1, 2, |x, n| vec![(0..n).map(|_| 0.0).collect(), x[0].clone()], 0.0) };
            multizero2: { against(&mut (multizero::<U2>() | pass()), 1, 3, |x, n| vec![(0..n).map(|_| 0.0).collect(), (0..n).map(|_| 0.0).collect(), x[0].clone()], 0.0) };
            dc3: { let (a, b, c) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut dc((a, b, c)), 0, 3, |_, n| vec![(0..n).map(|_| a).collect(), (0..n).map(|_| b).collect(), (0..n).map(|_| c).collect()], 0.0) };
            constant2: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut constant((a, b)), 0, 2, |_, n| vec![(0..n).map(|_| a).collect(), (0..n).map(|_| b).collect()], 0.0) };
            add2: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut add((a, b)), 2, 2, |x, n| vec![(0..n).map(|i| x[0][i] + a).collect(), (0..n).map(|i| x[1][i] + b).collect()], 1e-6) };
            sub2: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut sub((a, b)), 2, 2, |x, n| vec![(0..n).map(|i| x[0][i] - a).collect(), (0..n).map(|i| x[1][i] - b).collect()], 1e-6) };
            mul2: { let (a, b) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
                against(&mut mul((a, b)), 2, 2, |x, n| vec![(0..n).map(|i| x[0][i] * a).collect(), (0..n).map(|i| x[1][i] * b).collect()], 1e-6) };
            map2: { let a = f32_in(-2.0, 2.0);
                against(&mut map(move |f: &Frame<f32, U2>| (f[0] * f[1], f[0] - a, f[1])), 2, 3, |x, n|
                    vec![(0..n).map(|i| x[0][i] * x[1][i]).collect(), (0..n).map(|i| x[0][i] - a).collect(), x[1].clone()], 1e-6) };
            tick: { against(&mut tick(), 1, 1, |x, n| vec![(0..n).map(|i| if i == 0 { 0.0 } else { x[0][i - 1] }).collect()], 0.0) };
            multitick2: { against(&mut multitick::<U2>(), 2, 2, |x, n| (0..2).map(|c| (0..n).map(|i| if i == 0 { 0.0 } else { x[c][i - 1] }).collect()).collect(), 0.0) };
            impulse2: { against(&mut impulse::<U2>(), 0, 2, |_, n| (0..2).map(|_| (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect()).collect(), 0.0) };
            rotate: { against(&mut rotate(0.5, 2.0), 2, 2, |x, n| {
                let (c, s) = (2.0 * 0.5f32.cos(), 2.0 * 0.5f32.sin());
                vec![(0..n).map(|i| c * x[0][i] - s * x[1][i]).collect(), (0..n).map(|i| s * x[0][i] + c * x[1][i]).collect()] }, 1e-5) };
            unit_wrap: { against(&mut unit::<U2, U2>(Box::new(q22(0.5))), 2, 2, |x, n| leaf(q22(0.5)).eval(x, n), 1e-6) };
            shape_fn: { let a = f32_in(-2.0, 2.0); against(&mut shape_fn(move |x| x * a), 1, 1, |x, n| vec![(0..n).map(|i| x[0][i] * a).collect()], 1e-6) };
        }
    };
}
expressions!(static_cases, "c04");
