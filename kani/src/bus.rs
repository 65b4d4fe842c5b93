//! Abstract bus: the environment's answers (`Oracle`) and the observable traffic (`Bus`).
//! Both the real code (through the host traits, see `real.rs`) and the specification
//! (`spec.rs`) run against this, and contracts compare the two logs.
use crate::nd;

/// data-log event kinds
pub const OP: u8 = 1; // opcode fetch        addr=pc   val=refresh address
pub const RD: u8 = 2; // memory read         addr      val=0
pub const WR: u8 = 3; // memory write        addr      val=byte
pub const IN: u8 = 4; // port read           addr=port
pub const OUT: u8 = 5; // port write         addr=port val=byte
pub const IACK: u8 = 6; // interrupt ack     addr=pc
pub const RETI: u8 = 7; // end of interrupt  addr=pc after RETI
/// clock-log event kinds
pub const M1: u8 = 1;
pub const MREQ: u8 = 2;
pub const NOMREQ: u8 = 3;
pub const IO: u8 = 4;
pub const IRQ: u8 = 5;
pub const WAIT: u8 = 6;

/// time stamp wildcard in the specification's log
pub const ANYTS: u8 = 0xFF;

/// data-log entry: kind, time stamp, address, value
pub type DEv = u64;
/// clock-log entry: kind, address, T-states
pub type CEv = u64;
pub const fn dev(k: u8, addr: u16, val: u16, ts: u8) -> DEv { (k as u64) << 48 | (ts as u64) << 32 | (addr as u64) << 16 | val as u64 }
pub const fn cev(k: u8, addr: u16, n: u16) -> CEv { (k as u64) << 48 | (addr as u64) << 16 | n as u64 }
pub const fn kind(e: u64) -> u8 { (e >> 48) as u8 }
pub const fn addr(e: u64) -> u16 { (e >> 16) as u16 }
pub const fn val(e: u64) -> u16 { e as u16 }
pub const fn ts(e: u64) -> u8 { (e >> 32) as u8 }

/// log sizes: one step, or several in a row
#[cfg(not(feature = "wide"))] pub const ND: usize = 8;
#[cfg(not(feature = "wide"))] pub const NC: usize = 10;
#[cfg(not(feature = "wide"))] pub const NRD: usize = 8;
#[cfg(feature = "wide")] pub const ND: usize = 16;
#[cfg(feature = "wide")] pub const NC: usize = 24;
#[cfg(feature = "wide")] pub const NRD: usize = 12;

/// Everything the environment may answer during one step: arbitrary.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Oracle {
    pub rd: [u8; NRD],
    /// `read_debug`: one answer at an arbitrary address, another one elsewhere
    pub dbg_rd: u8,
    pub dbg_at: u16,
    pub dbg_else: u8,
    pub inp: u8,
    pub io_wait: u16,
    pub out_break: bool,
    pub out_token: u8,
    pub reti_break: bool,
    pub reti_token: u8,
    /// INT line at the very beginning / at any later time
    pub irq0: bool,
    pub irq1: bool,
    pub vec: u8,
    pub irq_wait: u16,
}

impl Oracle {
    /// INT line after `m1` opcode fetch, HALT or acknowledge cycles
    pub fn irq(&self, m1: u8) -> bool { if m1 == 0 { self.irq0 } else { self.irq1 } }
    pub fn peek(&self, addr: u16) -> u8 { if addr == self.dbg_at { self.dbg_rd } else { self.dbg_else } }
    pub fn any() -> Self {
        let mut rd = [0u8; NRD];
        let mut i = 0;
        while i < NRD { rd[i] = nd::u8(); i += 1; }
        Oracle {
            rd,
            dbg_rd: nd::u8(), dbg_at: nd::u16(), dbg_else: nd::u8(),
            inp: nd::u8(), io_wait: nd::u16(),
            out_break: nd::bool(), out_token: nd::u8(),
            reti_break: nd::bool(), reti_token: nd::u8(),
            irq0: nd::bool(), irq1: nd::bool(),
            vec: nd::u8(), irq_wait: nd::u16(),
        }
    }
}

/// What happened on the bus during a step.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Log {
    pub d: [DEv; ND],
    pub nd: u8,
    pub c: [CEv; NC],
    pub nc: u8,
    /// T-states counted with the minimal cycle lengths, wait states excluded
    pub t: u8,
    /// memory and opcode reads performed
    pub nrd: u8,
    /// opcode fetch, HALT and acknowledge cycles so far: what limited execution is limited by
    pub m1: u8,
    pub overflow: bool,
}

impl Log {
    pub const fn new() -> Self {
        Log { d: [0; ND], nd: 0, c: [0; NC], nc: 0, t: 0, nrd: 0, m1: 0, overflow: false }
    }
    #[inline]
    pub fn dpush(&mut self, k: u8, addr: u16, val: u16, ts: u8) {
        if (self.nd as usize) < ND { self.d[self.nd as usize] = dev(k, addr, val, ts); self.nd += 1; }
        else { self.overflow = true; }
    }
    #[inline]
    fn cpush(&mut self, k: u8, addr: u16, n: u16) {
        if (self.nc as usize) < NC { self.c[self.nc as usize] = cev(k, addr, n); self.nc += 1; }
        else { self.overflow = true; }
    }
    /// one bus cycle; answers the time stamp it is marked with
    #[inline]
    pub fn cycle(&mut self, k: u8, addr: u16, ts: u8) -> u8 {
        let t = self.t;
        if k == M1 || k == IRQ { self.m1 = self.m1.wrapping_add(1) }
        self.cpush(k, addr, ts as u16);
        self.t = t.wrapping_add(ts);
        t
    }
    /// internal T-states; adjacent ones at one address form one entry
    #[inline]
    pub fn no_mreq(&mut self, addr: u16, n: u8) {
        let i = self.nc as usize;
        if i > 0 && i <= NC && self.c[i - 1] >> 16 == cev(NOMREQ, addr, 0) >> 16 {
            self.c[i - 1] += n as u64;
        }
        else { self.cpush(NOMREQ, addr, n as u16); }
        self.t = self.t.wrapping_add(n);
    }
    #[inline]
    pub fn wait(&mut self, addr: u16, n: u16) { self.cpush(WAIT, addr, n); }
    #[inline]
    pub fn next_rd(&mut self, o: &Oracle) -> u8 {
        let i = self.nrd as usize;
        if i < NRD { self.nrd += 1; o.rd[i] } else { self.overflow = true; 0 }
    }
}
