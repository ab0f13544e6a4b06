//! C09: events play exactly when they are scheduled.
use crate::prim::*;
use crate::seqmodel::*;
use crate::util::*;
use fundsp::hacker::*;

fn seg(q: &mut Sq) {
    match choose(3) {
        0 => q.run(3, false),
        1 => q.run(64, true),
        _ => q.run(7, true),
    }
}
/// One event of any kind, before or while running, then edits.
fn single(kind: usize, jitter: bool) {
    let mut q = Sq::new(choose(2) == 1);
    q.jitter = jitter;
    if choose(2) == 1 {
        q.run(5, true);
    }
    q.push(kind);
    seg(&mut q);
    q.edit(choose(2) == 1);
    q.run(5, choose(2) == 1);
}
/// One event run to its end.
fn long(kind: usize) {
    let mut q = Sq::new(true);
    q.jitter = choose(2) == 1;
    if choose(2) == 1 {
        q.run(2, false);
    }
    q.push(kind);
    match choose(3) {
        0 => {
            q.run(64, true);
            q.run(64, true);
            q.run(20, true);
        }
        1 => {
            q.run(9, true);
            q.run(60, true);
            q.run(11, true);
        }
        _ => q.run(80, false),
    }
    q.run(3, true);
}
fn several() {
    let mut q = Sq::new(false);
    q.plain = true;
    q.push(0);
    q.push(1);
    q.run(4, true);
    q.edit(true);
    q.run(3, false);
    q.run(64, true);
}
/// The set of active events shrinks in the middle while later ones are edited.
fn shrink() {
    let mut q = Sq::new(true);
    q.plain = true;
    for _ in 0..2 {
        q.push(2);
    }
    q.run(3, true);
    q.run(1, false);
    q.edit(false);
    q.run(5, true);
}
fn replay() {
    let mut q = Sq::new(true);
    q.push(0);
    q.run(6, true);
    q.push(1);
    q.run(5, false);
    q.reset();
    q.run(64, true);
    q.run(9, true);
}
fn rates() {
    let mut q = Sq::new(true);
    q.rate(if choose(2) == 0 { 48000.0 } else { 22050.0 });
    q.push(choose(3));
    q.run(5, true);
    q.edit(true);
    q.run(7, true);
}
fn clear() {
    let mut q = Sq::new(false);
    q.push(0);
    q.run(4, true);
    q.reset();
    q.run(3, true);
    q.push(1);
    q.run(7, true);
}
harnesses! { "c09";
    push: single(0, false); push_relative: single(1, false); push_duration: single(2, false);
    push_any_time: single(0, true); push_relative_any_time: single(1, true); push_duration_any_time: single(2, true);
    long_push: long(0); long_push_relative: long(1); long_push_duration: long(2);
    several: several(); shrink: shrink(); replay: replay(); rates: rates(); clear: clear();
}
