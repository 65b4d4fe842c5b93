//! The real code: builds a real CPU in a given abstract state, runs one of its public
//! operations against the recording host and observes the result.
use core::cell::UnsafeCell;
use core::num::{NonZeroU16, NonZeroU8};
use z80emu::{z80::*, *};
use z80emu::host::BreakCause;
use crate::bus::*;
use crate::st::*;

pub trait Fl: Flavour { const K: u8; }
impl Fl for NMOS { const K: u8 = 0; }
impl Fl for CMOS { const K: u8 = 1; }
impl Fl for BM1 { const K: u8 = 2; }

/// Host under observation. One log serves memory, I/O and clock.
pub struct Shared<'a> { pub o: &'a Oracle, pub log: UnsafeCell<Log> }
pub struct Ctl<'a>(pub &'a Shared<'a>);
/// the clock is past a limit once that many opcode fetch, HALT and acknowledge cycles took place
pub struct Clk<'a> { pub s: &'a Shared<'a> }

#[derive(Debug)]
pub struct Ts(pub u8);

impl<'a> Shared<'a> {
    #[inline]
    #[allow(clippy::mut_from_ref)]
    pub fn log(&self) -> &mut Log { unsafe { &mut *self.log.get() } }
}

impl<'a> Clock for Clk<'a> {
    type Limit = u8;
    type Timestamp = Ts;
    fn is_past_limit(&self, limit: u8) -> bool { self.s.log().m1 >= limit }
    fn add_irq(&mut self, pc: u16) -> Ts { Ts(self.s.log().cycle(IRQ, pc, 6)) }
    fn add_no_mreq(&mut self, address: u16, add_ts: NonZeroU8) { self.s.log().no_mreq(address, add_ts.get()) }
    fn add_m1(&mut self, address: u16) -> Ts { Ts(self.s.log().cycle(M1, address, 4)) }
    fn add_mreq(&mut self, address: u16) -> Ts { Ts(self.s.log().cycle(MREQ, address, 3)) }
    fn add_io(&mut self, port: u16) -> Ts { Ts(self.s.log().cycle(IO, port, 4)) }
    fn add_wait_states(&mut self, bus: u16, wait_states: NonZeroU16) { self.s.log().wait(bus, wait_states.get()) }
    fn as_timestamp(&self) -> Ts { Ts(self.s.log().t) }
}

impl<'a> Memory for Ctl<'a> {
    type Timestamp = Ts;
    fn read_mem(&self, address: u16, ts: Ts) -> u8 {
        let l = self.0.log();
        l.dpush(RD, address, 0, ts.0);
        l.next_rd(self.0.o)
    }
    fn read_mem16(&self, address: u16, ts: Ts) -> u16 {
        let l = self.0.log();
        l.dpush(RD, address, 0, ts.0);
        let lo = l.next_rd(self.0.o);
        l.dpush(RD, address.wrapping_add(1), 0, ts.0);
        let hi = l.next_rd(self.0.o);
        u16::from_le_bytes([lo, hi])
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Ts) -> u8 {
        let l = self.0.log();
        l.dpush(OP, pc, ir, ts.0);
        l.next_rd(self.0.o)
    }
    fn write_mem(&mut self, address: u16, value: u8, ts: Ts) {
        self.0.log().dpush(WR, address, value as u16, ts.0);
    }
    fn read_debug(&self, address: u16) -> u8 { self.0.o.peek(address) }
}

impl<'a> Io for Ctl<'a> {
    type Timestamp = Ts;
    type WrIoBreak = u8;
    type RetiBreak = u8;
    fn read_io(&mut self, port: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        self.0.log().dpush(IN, port, 0, ts.0);
        (self.0.o.inp, NonZeroU16::new(self.0.o.io_wait))
    }
    fn write_io(&mut self, port: u16, data: u8, ts: Ts) -> (Option<u8>, Option<NonZeroU16>) {
        self.0.log().dpush(OUT, port, data as u16, ts.0);
        (if self.0.o.out_break { Some(self.0.o.out_token) } else { None }, NonZeroU16::new(self.0.o.io_wait))
    }
    fn is_irq(&mut self, ts: Ts) -> bool {
        let l = self.0.log();
        // the line is sampled at the current time
        if ts.0 != l.t { l.overflow = true }
        self.0.o.irq(l.m1)
    }
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        self.0.log().dpush(IACK, pc, 0, ts.0);
        (self.0.o.vec, NonZeroU16::new(self.0.o.irq_wait))
    }
    fn reti(&mut self, address: u16, ts: Ts) -> Option<u8> {
        self.0.log().dpush(RETI, address, 0, ts.0);
        if self.0.o.reti_break { Some(self.0.o.reti_token) } else { None }
    }
}

pub struct NoHost;
pub struct NoClk;
impl Clock for NoClk {
    type Limit = u8;
    type Timestamp = Ts;
    fn is_past_limit(&self, _limit: u8) -> bool { true }
    fn add_irq(&mut self, _: u16) -> Ts { Ts(0) }
    fn add_no_mreq(&mut self, _: u16, _: NonZeroU8) {}
    fn add_m1(&mut self, _: u16) -> Ts { Ts(0) }
    fn add_mreq(&mut self, _: u16) -> Ts { Ts(0) }
    fn add_io(&mut self, _: u16) -> Ts { Ts(0) }
    fn add_wait_states(&mut self, _: u16, _: NonZeroU16) {}
    fn as_timestamp(&self) -> Ts { Ts(0) }
}
impl Memory for NoHost { type Timestamp = Ts; }
impl Io for NoHost { type Timestamp = Ts; type WrIoBreak = u8; type RetiBreak = u8; }

pub fn im_of(n: u8) -> InterruptMode {
    match n { 0 => InterruptMode::Mode0, 1 => InterruptMode::Mode1, _ => InterruptMode::Mode2 }
}
pub fn im_to(m: InterruptMode) -> u8 {
    match m { InterruptMode::Mode0 => 0, InterruptMode::Mode1 => 1, InterruptMode::Mode2 => 2 }
}
pub fn pfx_to(p: Option<Prefix>) -> u8 {
    match p { None => 0, Some(Prefix::Xdd) => 1, Some(Prefix::Yfd) => 2 }
}

/// A real CPU in the abstract state `s`.
pub fn make<F: Fl>(s: &St) -> Z80<F> {
    let mut z = Z80::<F>::default();
    // a pending prefix is only reachable by executing one
    match s.pfx {
        1 => { let _ = z.execute_instruction(&mut NoHost, &mut NoClk, None::<CpuDebugFn>, 0xDD); }
        2 => { let _ = z.execute_instruction(&mut NoHost, &mut NoClk, None::<CpuDebugFn>, 0xFD); }
        _ => {}
    }
    z.set_reg16(StkReg16::AF, s.af2);
    z.set_reg16(StkReg16::BC, s.bc2);
    z.set_reg16(StkReg16::DE, s.de2);
    z.set_reg16(StkReg16::HL, s.hl2);
    z.ex_af_af();
    z.exx();
    z.set_acc(s.a);
    z.set_flags(CpuFlags::from_bits_retain(s.f));
    z.set_reg2(StkReg16::BC, s.b, s.c);
    z.set_reg2(StkReg16::DE, s.d, s.e);
    z.set_reg2(StkReg16::HL, s.h, s.l);
    z.set_index16(Prefix::Xdd, s.ix);
    z.set_index16(Prefix::Yfd, s.iy);
    z.set_sp(s.sp);
    z.set_pc(s.pc);
    z.set_memptr(s.wz);
    z.set_i(s.i);
    z.set_r(s.r);
    z.add_r(s.rd as i32);
    z.set_im(im_of(s.im));
    if s.ei { z.enable_interrupts() }
    z.set_iffs(s.iff1, s.iff2);
    if s.halt { z.halt() }
    z.flavour = F::default();
    if s.q0 { z.flavour.flags_modified() }
    z.flavour.begin_instruction();
    if s.q { z.flavour.flags_modified() }
    z
}

/// Abstract state of a real CPU.
pub fn view<F: Fl>(z: &Z80<F>) -> St {
    let all = CpuFlags::from_bits_retain(0xFF);
    let q0 = z.flavour.get_q(0, all) == 0;
    let mut fl = z.flavour;
    fl.begin_instruction();
    let q = fl.get_q(0, all) == 0;
    let r = z.get_r();
    let af = z.get_reg16(StkReg16::AF);
    let bc = z.get_reg16(StkReg16::BC);
    let de = z.get_reg16(StkReg16::DE);
    let hl = z.get_reg16(StkReg16::HL);
    let (iff1, iff2) = z.get_iffs();
    St {
        a: (af >> 8) as u8, f: af as u8, b: (bc >> 8) as u8, c: bc as u8,
        d: (de >> 8) as u8, e: de as u8, h: (hl >> 8) as u8, l: hl as u8,
        af2: z.get_alt_reg16(StkReg16::AF), bc2: z.get_alt_reg16(StkReg16::BC),
        de2: z.get_alt_reg16(StkReg16::DE), hl2: z.get_alt_reg16(StkReg16::HL),
        ix: z.get_index16(Prefix::Xdd), iy: z.get_index16(Prefix::Yfd),
        sp: z.get_sp(), pc: z.get_pc(), wz: z.get_memptr(),
        i: z.get_i(), r, rd: 0, im: im_to(z.get_im()),
        iff1, iff2, halt: z.is_halt(), ei: z.is_after_ei(),
        pfx: pfx_to(z.get_prefix()), q, q0,
    }
}

pub fn res_of(r: z80emu::host::Result<u8, u8>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(BreakCause::Halt) => Res::Halt,
        Err(BreakCause::WriteIo(x)) => Res::WrIo(x),
        Err(BreakCause::Reti(x)) => Res::Reti(x),
    }
}
