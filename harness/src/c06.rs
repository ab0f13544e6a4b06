//! C06: editing a network changes exactly what the edit says.
use crate::netmodel::*;
use crate::prim::*;
/// Two edits, the first of kind `k`, processing before, between and after.
fn two(k: usize) {
    let mut m = if choose(2) == 0 { diamond() } else { backwards() };
    let warm = choose(2) == 0;
    if warm {
        m.compare(2, true);
    }
    m.op(k);
    if warm {
        m.compare(1, false);
    }
    m.op(choose(19));
    m.compare(3, warm);
}
/// Three structural edits that move nodes around.
fn three(k: usize) {
    const K: [usize; 5] = [6, 7, 14, 15, 12];
    let mut m = diamond();
    m.op(k);
    m.op(K[choose(5)]);
    m.compare(1, true);
    m.op(K[choose(5)]);
    m.compare(2, false);
}
fn empty() {
    let mut m = M::new(choose(2), 2);
    m.op(14);
    m.compare(1, true);
    m.op(14);
    m.op(14);
    m.compare(2, true);
}
harnesses! { "c06";
    connect: two(0); connect_input: two(1); connect_output: two(2); pass_through: two(3); disconnect: two(4); disconnect_output: two(5);
    remove: two(6); remove_link: two(7); replace: two(8); set_source: two(9); set_output_source: two(10); pipe_input: two(11);
    pipe_output: two(12); pipe_all: two(13); chain: two(14); push: two(15);
    crossfade: two(16); fade_in: two(17); set: two(18);
    remove3: three(6); remove_link3: three(7); chain3: three(14); push3: three(15); connect3: three(0);
    empty: empty();
}
