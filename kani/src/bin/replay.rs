//! replay <harness> <inputs>: runs one harness natively on recorded inputs against the real
//! code; exit 1 and a description if a contract is broken, 0 if not.
use z80contracts::{contract::FAILS, gen::GROUPS, nd};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = GROUPS.iter().find(|g| g.0 == a[1]).expect("no such harness").1;
    let vals = a.get(2).map(|s| s.split(';').filter(|s| !s.is_empty())
        .map(|v| v.split(',').map(|x| x.parse().unwrap()).collect()).collect()).unwrap_or_default();
    nd::set_replay(vals);
    let r = std::panic::catch_unwind(f);
    let mut bad = false;
    FAILS.with(|v| for s in v.borrow().iter().take(20) { bad = true; println!("contract broken: {s}") });
    if let Err(e) = r {
        if e.is::<nd::Discard>() { println!("input outside the precondition") }
        else {
            bad = true;
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("the real code panicked: {m}");
        }
    }
    std::process::exit(bad as i32);
}
