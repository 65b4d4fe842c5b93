//! slimgoto IN OUT MINDECL: reads a CBMC goto binary (format 6) and turns the DECL and DEAD
//! instructions of every function with at least MINDECL declarations into SKIPs.
//!
//! Kani declares every MIR local at function entry.  `execute_instruction` has some 3900 of
//! them, and symbolic execution spends 80% of its time havocking and killing locals that the
//! executed path never touches.  A Rust local is definitely initialised before each use
//! (rustc enforces it), so its DECL (assign nondet) and DEAD (end of lifetime) have no effect
//! on the functional obligations; lifetime (use-after-scope) checks are disabled where this
//! is used and stay enabled in the memory-safety check, which does not use this tool.
//! Nothing but the one-byte instruction kind is changed.
use std::collections::{HashMap, HashSet};
struct P { d: Vec<u8>, p: usize, s: HashMap<usize, Vec<u8>>, i: HashSet<usize> }
impl P {
    fn word(&mut self) -> usize {
        let (mut r, mut sh) = (0usize, 0);
        loop { let b = self.d[self.p]; self.p += 1; r |= ((b & 127) as usize) << sh; sh += 7; if b & 128 == 0 { return r } }
    }
    fn raw(&mut self) -> Vec<u8> {
        let mut o = vec![];
        while self.d[self.p] != 0 { if self.d[self.p] == b'\\' { self.p += 1 } o.push(self.d[self.p]); self.p += 1 }
        self.p += 1;
        o
    }
    fn sref(&mut self) { let i = self.word(); if !self.s.contains_key(&i) { let s = self.raw(); self.s.insert(i, s); } }
    fn irep(&mut self) {
        let i = self.word();
        if !self.i.insert(i) { return }
        self.sref();
        while self.d[self.p] == b'S' { self.p += 1; self.irep() }
        while self.d[self.p] == b'N' { self.p += 1; self.sref(); self.irep() }
        while self.d[self.p] == b'C' { self.p += 1; self.sref(); self.irep() }
        assert_eq!(self.d[self.p], 0, "bad irep");
        self.p += 1;
    }
}
fn go() {
    let a: Vec<String> = std::env::args().collect();
    let d = std::fs::read(&a[1]).expect("read");
    let min: usize = a[3].parse().expect("number");
    assert!(d.starts_with(b"\x7fGBF\x06"), "unknown goto binary format");
    let mut p = P { d, p: 5, s: HashMap::new(), i: HashSet::new() };
    for _ in 0..p.word() { p.irep(); p.irep(); p.irep(); for _ in 0..5 { p.sref() } p.word(); p.word(); }
    let mut n = 0;
    for _ in 0..p.word() {
        let _name = p.raw();
        let mut at = vec![];
        let mut decls = 0;
        for _ in 0..p.word() {
            p.irep(); p.irep();
            let tp = p.p;
            let t = p.word();
            if t == 14 || t == 15 { at.push(tp); if t == 14 { decls += 1 } }
            p.irep(); p.word();
            for _ in 0..p.word() { p.word(); }
            for _ in 0..p.word() { p.sref() }
        }
        if decls >= min { n += at.len(); for i in at { p.d[i] = 5 } }
    }
    assert_eq!(p.p, p.d.len(), "trailing bytes");
    std::fs::write(&a[2], &p.d).expect("write");
    println!("{n}");
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 29).spawn(go).unwrap().join().map_err(|_| std::process::exit(2)).ok();
}
