//! Native replay: vph_replay HARNESS INPUTS
#[cfg(not(vp_ir))]
fn main() {
    use vph::prim::imp::*;
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in vph::list() {
            println!("{}", n);
        }
        return;
    }
    let name = a[1].strip_prefix("h_").unwrap_or(&a[1]).to_string();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let mut input = vec![];
    for l in txt.lines() {
        if l.starts_with('#') {
            continue;
        }
        let mut w = l.split_whitespace();
        if let Some(k) = w.next() {
            let k = k.chars().next().unwrap();
            let v = w.next().unwrap();
            input.push((k, if k == 'c' { v.parse().unwrap() } else { u64::from_str_radix(v, 16).unwrap() }));
        }
    }
    let f = vph::list().into_iter().find(|(n, _)| *n == name).expect("no such harness").1;
    IO.with(|io| io.borrow_mut().input = input);
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| {
        NOALLOC.store(false, std::sync::atomic::Ordering::SeqCst);
        *m2.lock().unwrap() = format!("{}", i).replace('\n', " ");
    }));
    // one megabyte-scale stack as in an audio thread is not assumed: use a roomy one
    let r = std::panic::catch_unwind(f);
    NOALLOC.store(false, std::sync::atomic::Ordering::SeqCst);
    let (out, fails) = IO.with(|io| {
        let io = io.borrow();
        (io.out.clone(), io.fails)
    });
    print!("{}", out);
    if let Err(e) = r {
        if e.downcast_ref::<AssumeFailed>().is_some() {
            println!("ASSUME");
            std::process::exit(if fails > 0 { 1 } else { 3 });
        }
        println!("FAULT {}", msg.lock().unwrap());
        std::process::exit(1);
    }
    std::process::exit(if fails > 0 { 1 } else { 0 });
}
#[cfg(vp_ir)]
fn main() {}
