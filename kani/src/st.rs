//! Abstract view of the programmer-visible CPU state.
use crate::nd;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct St {
    pub a: u8, pub f: u8, pub b: u8, pub c: u8, pub d: u8, pub e: u8, pub h: u8, pub l: u8,
    pub af2: u16, pub bc2: u16, pub de2: u16, pub hl2: u16,
    pub ix: u16, pub iy: u16, pub sp: u16, pub pc: u16, pub wz: u16,
    pub i: u8, pub r: u8,
    /// refresh counter delta applied after `r` was set: covers every lazy representation of R
    pub rd: u8,
    pub im: u8,
    pub iff1: bool, pub iff2: bool, pub halt: bool, pub ei: bool,
    /// 0 none, 1 DD, 2 FD
    pub pfx: u8,
    /// the last executed instruction modified the flags
    pub q: bool,
    /// the one before did
    pub q0: bool,
}

impl St {
    /// any representable state (no prefix pending)
    pub fn any() -> Self {
        let s = St {
            a: nd::u8(), f: nd::u8(), b: nd::u8(), c: nd::u8(), d: nd::u8(), e: nd::u8(), h: nd::u8(), l: nd::u8(),
            af2: nd::u16(), bc2: nd::u16(), de2: nd::u16(), hl2: nd::u16(),
            ix: nd::u16(), iy: nd::u16(), sp: nd::u16(), pc: nd::u16(), wz: nd::u16(),
            i: nd::u8(), r: nd::u8(), rd: nd::u8(), im: nd::below(3),
            iff1: nd::bool(), iff2: nd::bool(), halt: nd::bool(), ei: nd::bool(),
            pfx: 0, q: nd::bool(), q0: nd::bool(),
        };
        s
    }
    pub fn bc(&self) -> u16 { (self.b as u16) << 8 | self.c as u16 }
    pub fn de(&self) -> u16 { (self.d as u16) << 8 | self.e as u16 }
    pub fn hl(&self) -> u16 { (self.h as u16) << 8 | self.l as u16 }
    pub fn set_bc(&mut self, v: u16) { self.b = (v >> 8) as u8; self.c = v as u8 }
    pub fn set_de(&mut self, v: u16) { self.d = (v >> 8) as u8; self.e = v as u8 }
    pub fn set_hl(&mut self, v: u16) { self.h = (v >> 8) as u8; self.l = v as u8 }
    /// HL, or the index register the pending prefix selects
    pub fn ii(&self, pfx: u8) -> u16 { match pfx { 0 => self.hl(), 1 => self.ix, _ => self.iy } }
    pub fn set_ii(&mut self, pfx: u8, v: u16) { match pfx { 0 => self.set_hl(v), 1 => self.ix = v, _ => self.iy = v } }
    /// R as read by software, and I:R
    pub fn rr(&self) -> u8 { self.r & 0x80 | self.r.wrapping_add(self.rd) & 0x7F }
    pub fn ir(&self) -> u16 { (self.i as u16) << 8 | self.rr() as u16 }
    pub fn inc_r(&mut self) { self.rd = self.rd.wrapping_add(1) }
    pub fn set_r(&mut self, v: u8) { self.r = v; self.rd = 0 }
}

/// Why an execution step asks its caller to stop.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Ok, Halt, WrIo(u8), Reti(u8), NotAccepted }
