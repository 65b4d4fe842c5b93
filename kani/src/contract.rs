//! Contracts of the public CPU operations and the proof obligations over them.
//!
//! Every operation `op` of the real CPU is given the contract
//!     requires  state is representable              (`St::any`, built with the public setters)
//!     ensures   view(after) == spec(before, env)    (all registers: nothing else changed)
//!               traffic(after) == spec_traffic      (memory, ports, cycles, time stamps)
//! `one` discharges it for one instruction encoding: every register, flag and internal state
//! bit and every answer of the environment is unconstrained.  There are no loops over inputs,
//! so each obligation is complete, not a bounded exploration.
use core::cell::UnsafeCell;
use z80emu::{z80::*, *};
use crate::{bus::*, real::*, spec, st::*};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Out { pub st: St, pub res: Res, pub log: Log, pub dbg: spec::Dbg }

/// A public operation of the CPU.
pub trait Op {
    const FETCH: bool = false;
    const IRQ: bool = false;
    const NAME: &'static str;
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, dbg: &mut spec::Dbg, code: u8) -> Res;
    fn spec(m: &mut spec::M, code: u8) -> Res;
    /// states the contract does not speak about
    fn requires(_s: &St) -> bool { true }
}
const D: Option<CpuDebugFn> = None;
/// execute_instruction(code)
pub struct Instr;
impl Op for Instr {
    const NAME: &'static str = "execute_instruction";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, _: &mut spec::Dbg, code: u8) -> Res { res_of(z.execute_instruction(c, t, D, code)) }
    fn spec(m: &mut spec::M, code: u8) -> Res { m.exec(code) }
}
/// execute_next()
pub struct Next;
impl Op for Next {
    const FETCH: bool = true;
    const NAME: &'static str = "execute_next";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, _: &mut spec::Dbg, _: u8) -> Res { res_of(z.execute_next(c, t, D)) }
    fn spec(m: &mut spec::M, _: u8) -> Res { m.next() }
}
/// execute_with_limit(), the limit being K opcode fetch, HALT or acknowledge cycles
pub struct LimitN<const K: u8>;
/// ... any instruction reaches it
pub type Limit = LimitN<1>;
impl<const K: u8> Op for LimitN<K> {
    const FETCH: bool = true;
    const NAME: &'static str = "execute_with_limit";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, _: &mut spec::Dbg, _: u8) -> Res { res_of(z.execute_with_limit(c, t, K)) }
    fn spec(m: &mut spec::M, _: u8) -> Res { m.limited(K) }
    /// a halted CPU is past its EI and prefixes; the method asserts so
    fn requires(s: &St) -> bool { !s.halt || !s.ei && s.pfx == 0 }
}
/// irq()
pub struct Irq;
impl Op for Irq {
    const IRQ: bool = true;
    const NAME: &'static str = "irq";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, _: &mut spec::Dbg, _: u8) -> Res {
        match z.irq(c, t, D) { None => Res::NotAccepted, Some(r) => res_of(r) }
    }
    fn spec(m: &mut spec::M, _: u8) -> Res { m.irq() }
}
/// nmi()
pub struct Nmi;
impl Op for Nmi {
    const NAME: &'static str = "nmi";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, _: &mut spec::Dbg, _: u8) -> Res {
        if z.nmi(c, t) { Res::Ok } else { Res::NotAccepted }
    }
    fn spec(m: &mut spec::M, _: u8) -> Res { m.nmi() }
}
/// execute_instruction(code) / execute_next() / irq() with a debugger attached
pub struct DInstr;
impl Op for DInstr {
    const NAME: &'static str = "execute_instruction+debug";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, g: &mut spec::Dbg, code: u8) -> Res { res_of(z.execute_instruction(c, t, Some(|d| note(g, d)), code)) }
    fn spec(m: &mut spec::M, code: u8) -> Res { m.exec(code) }
}
pub struct DNext;
impl Op for DNext {
    const FETCH: bool = true;
    const NAME: &'static str = "execute_next+debug";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, g: &mut spec::Dbg, _: u8) -> Res { res_of(z.execute_next(c, t, Some(|d| note(g, d)))) }
    fn spec(m: &mut spec::M, _: u8) -> Res { m.next() }
}
pub struct DIrq;
impl Op for DIrq {
    const IRQ: bool = true;
    const NAME: &'static str = "irq+debug";
    fn real<F: Fl>(z: &mut Z80<F>, c: &mut Ctl, t: &mut Clk, g: &mut spec::Dbg, _: u8) -> Res {
        match z.irq(c, t, Some(|d| note(g, d))) { None => Res::NotAccepted, Some(r) => res_of(r) }
    }
    fn spec(m: &mut spec::M, _: u8) -> Res { m.irq() }
}

// instruction pages
pub const BASE: u8 = 0;
pub const CB: u8 = 1;
pub const ED: u8 = 2;
/// DD/FD prefix pending, then DD CB d op
pub const XCB: u8 = 3;
/// that many data bytes, in a sequence
pub const DATUM: u8 = 4;

// aspects compared
pub const REGS: u16 = 1;
pub const DATA: u16 = 2;
pub const TIME: u16 = 4;
pub const REFR: u16 = 8;
pub const WZ: u16 = 16;
pub const QF: u16 = 32;
pub const DBG: u16 = 64;

pub fn run<F: Fl, O: Op>(z: &mut Z80<F>, o: &Oracle, code: u8) -> Out {
    let sh = Shared { o, log: UnsafeCell::new(Log::new()) };
    let mut dbg = spec::Dbg::default();
    let res = O::real::<F>(z, &mut Ctl(&sh), &mut Clk { s: &sh }, &mut dbg, code);
    Out { st: view(z), res, log: *sh.log(), dbg }
}

pub fn note(t: &mut spec::Dbg, d: CpuDebug) {
    t.called += 1;
    t.pc = d.pc;
    t.pfx = pfx_to(d.prefix);
    t.len = d.code.len() as u8;
    let mut i = 0;
    while i < 4 { if i < d.code.len() { t.code[i] = d.code[i] } i += 1; }
}

pub fn spec_step<O: Op>(s: &St, o: &Oracle, fl: u8, code: u8) -> Out {
    let mut m = spec::M::new(*s, o, fl);
    let res = O::spec(&mut m, code);
    Out { st: m.s, res, log: m.l, dbg: m.dbg }
}

pub fn eq_regs(a: &St, b: &St) -> bool {
    a.a == b.a && a.f == b.f && a.b == b.b && a.c == b.c && a.d == b.d && a.e == b.e && a.h == b.h && a.l == b.l
    && a.af2 == b.af2 && a.bc2 == b.bc2 && a.de2 == b.de2 && a.hl2 == b.hl2 && a.ix == b.ix && a.iy == b.iy
    && a.sp == b.sp && a.pc == b.pc && a.i == b.i && a.im == b.im && a.iff1 == b.iff1 && a.iff2 == b.iff2
    && a.halt == b.halt && a.ei == b.ei && a.pfx == b.pfx
}
pub fn eq_data(r: &Log, s: &Log) -> bool {
    if r.overflow || r.nd != s.nd || r.nrd != s.nrd { return false }
    let mut ok = true;
    let mut i = 0;
    while i < ND {
        let (x, y) = (r.d[i], s.d[i]);
        if kind(x) != kind(y) || addr(x) != addr(y) || (kind(x) != OP && val(x) != val(y)) { ok = false }
        i += 1;
    }
    ok
}
pub fn eq_timing(r: &Log, s: &Log) -> bool {
    if r.overflow || r.nd != s.nd || r.nc != s.nc || r.t != s.t { return false }
    let mut ok = true;
    let mut i = 0;
    while i < ND { if ts(s.d[i]) != ANYTS && ts(r.d[i]) != ts(s.d[i]) { ok = false } i += 1; }
    let mut i = 0;
    while i < NC { if r.c[i] != s.c[i] { ok = false } i += 1; }
    ok
}
pub fn eq_refresh(r: &Log, s: &Log) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < ND { if kind(s.d[i]) == OP && val(r.d[i]) != val(s.d[i]) { ok = false } i += 1; }
    ok
}

/// states one obligation: a proof goal under the verifier, a recorded comparison natively
#[cfg(kani)]
macro_rules! oblige { ($c:expr, $m:literal, $($ctx:expr),*) => { assert!($c, $m) } }
#[cfg(not(kani))]
macro_rules! oblige { ($c:expr, $m:literal, $($ctx:expr),*) => { if !$c { $crate::contract::fail(format!("{}: {}", $m, [$(format!("{:x?}", $ctx)),*].join(" | "))) } } }

#[cfg(not(kani))]
thread_local! { pub static FAILS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }
#[cfg(not(kani))]
pub fn fail(s: String) { FAILS.with(|f| f.borrow_mut().push(s)) }

/// A real CPU in an arbitrary state and an arbitrary environment.
pub struct Cx<F: Fl> { pub s: St, pub o: Oracle, pub z: Z80<F> }

impl<F: Fl> Cx<F> {
    pub fn new(pfx: u8) -> Self { Self::with(pfx, |_, _| {}) }
    /// one of the cases a contract is split into: `f` fixes what distinguishes the case
    pub fn with(pfx: u8, f: impl FnOnce(&mut St, &mut Oracle)) -> Self {
        let mut s = St::any();
        s.pfx = pfx;
        let mut o = Oracle::any();
        f(&mut s, &mut o);
        let z = make::<F>(&s);
        Cx { s, o, z }
    }
    /// the cases in which the host's write_io/reti ask for a break or not
    pub fn brk(&self, w: bool, r: bool) -> Self {
        let mut o = self.o;
        o.out_break = w;
        o.reti_break = r;
        Cx { s: self.s, o, z: self.z.clone() }
    }
    /// the contract of `op` for one encoding
    #[inline(never)]
    pub fn one<const ASP: u16, O: Op>(&self, page: u8, code: u8) {
        let mut o = self.o;
        let first = match page { BASE => code, ED => 0xED, _ => 0xCB };
        let fetched = O::FETCH as usize;
        if fetched == 1 { o.rd[0] = first }
        match page {
            BASE => {}
            XCB => o.rd[fetched + 1] = code,
            _ => o.rd[fetched] = code,
        }
        if O::IRQ { o.vec = first }
        self.compare::<ASP, O>(&o, page, code, first)
    }
    /// the same for an instruction supplied by the interrupting device
    #[inline(never)]
    pub fn vec<const ASP: u16, O: Op>(&self, page: u8, code: u8) {
        let mut o = self.o;
        let first = match page { BASE => code, ED => 0xED, _ => 0xCB };
        o.vec = first;
        if page != BASE { o.rd[0] = code }
        self.compare::<ASP, O>(&o, page, code, first)
    }
    /// several encodings in a row: (page, code) pairs
    #[inline(never)]
    pub fn seq<const ASP: u16, O: Op>(&self, code: &[(u8, u8)]) {
        let mut o = self.o;
        let mut k = 0;
        let mut i = 0;
        while i < code.len() {
            let (page, c) = code[i];
            match page {
                BASE => { o.rd[k] = c; k += 1 }
                // a data byte read by the instruction before
                DATUM => { if c > 0 { k += c as usize } }
                _ => { o.rd[k] = if page == ED { 0xED } else { 0xCB }; o.rd[k + 1] = c; k += 2 }
            }
            i += 1;
        }
        let (p, c) = code[0];
        self.compare::<ASP, O>(&o, p, c, c)
    }
    pub fn compare<const ASP: u16, O: Op>(&self, o: &Oracle, page: u8, code: u8, first: u8) {
        if !O::requires(&self.s) { return }
        let mut z = self.z.clone();
        let a = run::<F, O>(&mut z, o, first);
        let b = spec_step::<O>(&self.s, o, F::K, first);
        let _ = (page, code);
        macro_rules! ob { ($m:literal, $c:expr, $x:expr, $y:expr) => {
            oblige!($c, $m, ("flavour", F::K, "op", O::NAME, "page", page, "code", code), ("before", self.s), ("env", o), ("real", $x), ("required", $y)) } }
        if ASP & REGS != 0 {
            ob!("OBL registers and control state", eq_regs(&a.st, &b.st), a.st, b.st);
            ob!("OBL result of the operation", a.res == b.res, a.res, b.res);
        }
        if ASP & DATA != 0 { ob!("OBL memory and port accesses", eq_data(&a.log, &b.log), a.log, b.log); }
        if ASP & TIME != 0 { ob!("OBL bus cycles, T-states and time stamps", eq_timing(&a.log, &b.log), a.log, b.log); }
        if ASP & REFR != 0 { ob!("OBL refresh register and addresses", a.st.r == b.st.rr() && eq_refresh(&a.log, &b.log), (a.st.r, a.log), (b.st.rr(), b.log)); }
        if ASP & WZ != 0 { ob!("OBL internal address register", a.st.wz == b.st.wz, a.st.wz, b.st.wz); }
        if ASP & QF != 0 && F::K != 1 { ob!("OBL flags-modified state", a.st.q == b.st.q, a.st.q, b.st.q); }
        if ASP & DBG != 0 { ob!("OBL debugger information", a.dbg == b.dbg, a.dbg, b.dbg); }
    }
}
/// reachability of the end of a harness: must be found reachable
#[inline(always)]
pub fn reached() {
    #[cfg(kani)]
    kani::cover!(true, "REACHED");
}
