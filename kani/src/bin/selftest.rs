use z80contracts::{bus::*, contract::*, real::*, st::*, nd, spec};
use z80emu::z80::*;
fn go<F: Fl>(n: u64, seed: u64) {
    let mut bad = std::collections::BTreeMap::<String, u32>::new();
    nd::set_seed(seed);
    for _ in 0..n {
        let r = std::panic::catch_unwind(|| {
            let mut s = St::any();
            s.pfx = nd::u8() % 3;
            let mut o = Oracle::any();
            let mut op = nd::u8() & 15; if op > 7 { op = 0 }
            let code = nd::u8();
            if op == 0 && nd::u8() & 1 == 0 { o.rd[0] = nd::u8() }
            let mut z = make::<F>(&s);
            macro_rules! d { ($t:ty) => { (if !<$t as Op>::requires(&s) { return None } else { run::<F, $t>(&mut z, &o, code) }, spec_step::<$t>(&s, &o, F::K, code)) } }
            let (a, b) = match op { 0 => d!(Instr), 1 => d!(Next), 2 => d!(Irq), 3 => d!(Nmi), 4 => d!(Limit), 5 => d!(DInstr), 6 => d!(DNext), _ => d!(DIrq) };
            let mut e = vec![];
            if !(eq_regs(&a.st, &b.st) && a.res == b.res) { e.push("regs") }
            if a.st.wz != b.st.wz { e.push("wz") }
            if a.st.r != b.st.rr() { e.push("r") }
            if F::K != 1 && a.st.q != b.st.q { e.push("q") }
            if !eq_data(&a.log, &b.log) { e.push("data") }
            if !eq_timing(&a.log, &b.log) { e.push("timing") }
            if !eq_refresh(&a.log, &b.log) { e.push("refresh") }
            if op > 4 && a.dbg != b.dbg { e.push("dbg") }
            if e.is_empty() { None } else { Some(format!("{} op{} pfx{} {:02x} {:02x} {:?}", F::K, op, s.pfx, code, o.rd[0], e)) }
        });
        match r { Ok(Some(x)) => { let x: String = x; *bad.entry(x).or_default() += 1; } Ok(None) => {}, Err(e) => if !e.is::<nd::Discard>() { std::panic::resume_unwind(e) } }
    }
    println!("{} bad kinds", bad.len());
    for (k, v) in bad.iter().take(40) { println!("{k} {v}") }
    let _ = spec::affected(0);
}
fn main() {
    std::panic::set_hook(Box::new(|i| if !i.payload().is::<nd::Discard>() { eprintln!("{i}") }));
    let n: u64 = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(100000);
    go::<NMOS>(n, 1); go::<CMOS>(n, 2); go::<BM1>(n, 3);
}
