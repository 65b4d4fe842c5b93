//! Reference semantics of the Z80, written from the published documentation
//! (Zilog UM0080; S. Young, "The Undocumented Z80 Documented"; the MEMPTR notes by
//! boo_boo; the per-T-state bus activity tables of the ZX Spectrum FAQ), decoded by the
//! x/y/z/p/q fields of the opcode.  Nothing here is taken from /repo's sources.
use crate::bus::*;
use crate::st::*;

pub const C: u8 = 1; pub const N: u8 = 2; pub const P: u8 = 4; pub const X: u8 = 8;
pub const H: u8 = 16; pub const Y: u8 = 32; pub const Z: u8 = 64; pub const S: u8 = 128;

fn bit(c: bool, m: u8) -> u8 { if c { m } else { 0 } }
pub fn parity(v: u8) -> bool {
    let mut n = v; n ^= n >> 4; n ^= n >> 2; n ^= n >> 1; n & 1 == 0
}
fn szxy(v: u8) -> u8 { v & (S | Y | X) | bit(v == 0, Z) }
fn szxyp(v: u8) -> u8 { szxy(v) | bit(parity(v), P) }

// ---------------------------------------------------------------- 8-bit ALU
pub fn add8(a: u8, b: u8, cin: bool) -> (u8, u8) {
    let w = a as u16 + b as u16 + cin as u16;
    let r = w as u8;
    let sw = a as i8 as i16 + b as i8 as i16 + cin as i16;
    (r, szxy(r) | bit(w > 0xFF, C) | bit((a & 15) + (b & 15) + cin as u8 > 15, H) | bit(sw < -128 || sw > 127, P))
}
pub fn sub8(a: u8, b: u8, cin: bool) -> (u8, u8) {
    let w = a as i16 - b as i16 - cin as i16;
    let r = w as u8;
    let sw = a as i8 as i16 - b as i8 as i16 - cin as i16;
    (r, szxy(r) | N | bit(w < 0, C) | bit((a & 15) as i16 - (b & 15) as i16 - (cin as i16) < 0, H) | bit(sw < -128 || sw > 127, P))
}
/// op y of the ALU group: result accumulator and flags
pub fn alu(y: u8, a: u8, f: u8, v: u8) -> (u8, u8) {
    let cy = f & C != 0;
    match y {
        0 => add8(a, v, false),
        1 => add8(a, v, cy),
        2 => sub8(a, v, false),
        3 => sub8(a, v, cy),
        4 => (a & v, szxyp(a & v) | H),
        5 => (a ^ v, szxyp(a ^ v)),
        6 => (a | v, szxyp(a | v)),
        _ => { let (_, nf) = sub8(a, v, false); (a, nf & !(X | Y) | v & (X | Y)) }
    }
}
pub fn inc8(v: u8, f: u8) -> (u8, u8) {
    let r = v.wrapping_add(1);
    (r, szxy(r) | f & C | bit(v & 15 == 15, H) | bit(v == 0x7F, P))
}
pub fn dec8(v: u8, f: u8) -> (u8, u8) {
    let r = v.wrapping_sub(1);
    (r, szxy(r) | N | f & C | bit(v & 15 == 0, H) | bit(v == 0x80, P))
}
pub fn daa(a: u8, f: u8) -> (u8, u8) {
    let (lo, n) = (a & 15, f & N != 0);
    let cy = f & C != 0 || a > 0x99;
    let d = bit(f & H != 0 || lo > 9, 0x06) | bit(cy, 0x60);
    let h = if n { f & H != 0 && lo < 6 } else { lo > 9 };
    let r = if n { a.wrapping_sub(d) } else { a.wrapping_add(d) };
    (r, szxyp(r) | f & N | bit(cy, C) | bit(h, H))
}
// ---------------------------------------------------------------- rotates and shifts
pub fn rot(y: u8, v: u8, f: u8) -> (u8, u8) {
    let c = f & C;
    let (r, co) = match y {
        0 => (v << 1 | v >> 7, v >> 7),
        1 => (v >> 1 | v << 7, v & 1),
        2 => (v << 1 | c, v >> 7),
        3 => (v >> 1 | c << 7, v & 1),
        4 => (v << 1, v >> 7),
        5 => (v >> 1 | v & 0x80, v & 1),
        6 => (v << 1 | 1, v >> 7),
        _ => (v >> 1, v & 1),
    };
    (r, szxyp(r) | co)
}
// ---------------------------------------------------------------- 16-bit ALU
pub fn add16(a: u16, b: u16, f: u8) -> (u16, u8) {
    let w = a as u32 + b as u32;
    let r = w as u16;
    (r, f & (S | Z | P) | (r >> 8) as u8 & (X | Y) | bit(w > 0xFFFF, C) | bit((a & 0xFFF) + (b & 0xFFF) > 0xFFF, H))
}
pub fn adc16(a: u16, b: u16, f: u8) -> (u16, u8) {
    let ci = (f & C) as u32;
    let w = a as u32 + b as u32 + ci;
    let r = w as u16;
    let sw = a as i16 as i32 + b as i16 as i32 + ci as i32;
    (r, (r >> 8) as u8 & (S | X | Y) | bit(r == 0, Z) | bit(w > 0xFFFF, C)
        | bit((a & 0xFFF) as u32 + (b & 0xFFF) as u32 + ci > 0xFFF, H) | bit(sw < -32768 || sw > 32767, P))
}
pub fn sbc16(a: u16, b: u16, f: u8) -> (u16, u8) {
    let ci = (f & C) as i32;
    let w = a as i32 - b as i32 - ci;
    let r = w as u16;
    let sw = a as i16 as i32 - b as i16 as i32 - ci;
    (r, N | (r >> 8) as u8 & (S | X | Y) | bit(r == 0, Z) | bit(w < 0, C)
        | bit((a & 0xFFF) as i32 - (b & 0xFFF) as i32 - ci < 0, H) | bit(sw < -32768 || sw > 32767, P))
}
pub fn cond(y: u8, f: u8) -> bool {
    match y {
        0 => f & Z == 0, 1 => f & Z != 0, 2 => f & C == 0, 3 => f & C != 0,
        4 => f & P == 0, 5 => f & P != 0, 6 => f & S == 0, _ => f & S != 0,
    }
}

/// What a debugger should be told about the executed instruction.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Dbg { pub called: u8, pub code: [u8; 4], pub len: u8, pub pc: u16, pub pfx: u8 }
impl Dbg {
    fn push(&mut self, b: u8) { if (self.len as usize) < 4 { self.code[self.len as usize] = b; self.len += 1; } }
}

pub struct M<'a> { pub s: St, pub l: Log, pub o: &'a Oracle, pub fl: u8, pub dbg: Dbg }

impl<'a> M<'a> {
    pub fn new(s: St, o: &'a Oracle, fl: u8) -> Self { M { s, l: Log::new(), o, fl, dbg: Dbg::default() } }

    // ------------------------------------------------------------ bus cycles
    fn rd(&mut self, a: u16) -> u8 {
        let t = self.l.cycle(MREQ, a, 3);
        self.l.dpush(RD, a, 0, t);
        self.l.next_rd(self.o)
    }
    fn wr(&mut self, a: u16, v: u8) {
        let t = self.l.cycle(MREQ, a, 3);
        self.l.dpush(WR, a, v as u16, t);
    }
    /// two read cycles; the host sees one 16-bit access stamped with the first
    fn rd16(&mut self, a: u16) -> u16 {
        let a1 = a.wrapping_add(1);
        let t = self.l.cycle(MREQ, a, 3);
        self.l.dpush(RD, a, 0, t);
        let lo = self.l.next_rd(self.o);
        self.l.cycle(MREQ, a1, 3);
        self.l.dpush(RD, a1, 0, ANYTS);
        let hi = self.l.next_rd(self.o);
        (hi as u16) << 8 | lo as u16
    }
    fn internal(&mut self, a: u16, n: u8) { self.l.no_mreq(a, n) }
    pub fn fetch(&mut self) -> u8 {
        let pc = self.s.pc;
        self.s.inc_r();
        let t = self.l.cycle(M1, pc, 4);
        self.l.dpush(OP, pc, self.s.ir(), t);
        self.s.pc = pc.wrapping_add(1);
        self.l.next_rd(self.o)
    }
    fn imm8(&mut self) -> u8 {
        let v = self.rd(self.s.pc);
        self.s.pc = self.s.pc.wrapping_add(1);
        self.dbg.push(v);
        v
    }
    fn imm16(&mut self) -> u16 {
        let v = self.rd16(self.s.pc);
        self.s.pc = self.s.pc.wrapping_add(2);
        self.dbg.push(v as u8);
        self.dbg.push((v >> 8) as u8);
        v
    }
    fn push(&mut self, v: u16) {
        self.s.sp = self.s.sp.wrapping_sub(1);
        self.wr(self.s.sp, (v >> 8) as u8);
        self.s.sp = self.s.sp.wrapping_sub(1);
        self.wr(self.s.sp, v as u8);
    }
    fn pop(&mut self) -> u16 {
        let v = self.rd16(self.s.sp);
        self.s.sp = self.s.sp.wrapping_add(2);
        v
    }
    fn input(&mut self, port: u16) -> u8 {
        let t = self.l.cycle(IO, port, 4);
        self.l.dpush(IN, port, 0, t);
        if self.o.io_wait != 0 { self.l.wait(port, self.o.io_wait) }
        self.o.inp
    }
    fn output(&mut self, port: u16, v: u8) -> Res {
        let t = self.l.cycle(IO, port, 4);
        self.l.dpush(OUT, port, v as u16, t);
        if self.o.io_wait != 0 { self.l.wait(port, self.o.io_wait) }
        if self.o.out_break { Res::WrIo(self.o.out_token) } else { Res::Ok }
    }

    // ------------------------------------------------------------ helpers
    fn setf(&mut self, f: u8) { self.s.f = f; self.s.q = true; }
    fn r8(&self, r: u8, pfx: u8) -> u8 {
        let s = &self.s;
        match r {
            0 => s.b, 1 => s.c, 2 => s.d, 3 => s.e,
            4 => (s.ii(pfx) >> 8) as u8, 5 => s.ii(pfx) as u8,
            _ => s.a,
        }
    }
    fn set_r8(&mut self, r: u8, pfx: u8, v: u8) {
        match r {
            0 => self.s.b = v, 1 => self.s.c = v, 2 => self.s.d = v, 3 => self.s.e = v,
            4 => { let w = self.s.ii(pfx); self.s.set_ii(pfx, (v as u16) << 8 | w & 0xFF) }
            5 => { let w = self.s.ii(pfx); self.s.set_ii(pfx, w & 0xFF00 | v as u16) }
            _ => self.s.a = v,
        }
    }
    fn rp(&self, p: u8, pfx: u8) -> u16 {
        match p { 0 => self.s.bc(), 1 => self.s.de(), 2 => self.s.ii(pfx), _ => self.s.sp }
    }
    fn set_rp(&mut self, p: u8, pfx: u8, v: u16) {
        match p { 0 => self.s.set_bc(v), 1 => self.s.set_de(v), 2 => self.s.set_ii(pfx, v), _ => self.s.sp = v }
    }
    /// address of the (HL) / (IX+d) / (IY+d) operand
    fn ea(&mut self, pfx: u8) -> u16 {
        if pfx == 0 { return self.s.hl() }
        let pc = self.s.pc;
        let d = self.imm8();
        self.internal(pc, 5);
        let a = self.s.ii(pfx).wrapping_add(d as i8 as u16);
        self.s.wz = a;
        a
    }
    fn mix(&self, a: u8, lo: u8) -> u16 {
        let hi = if self.fl == 2 { 0 } else { a };
        (hi as u16) << 8 | lo.wrapping_add(1) as u16
    }

    // ------------------------------------------------------------ execution
    /// executes the instruction whose first byte `code` has been fetched already
    pub fn exec(&mut self, code: u8) -> Res {
        let first = self.s.pc.wrapping_sub(1);
        let pfx = self.s.pfx;
        self.s.ei = false;
        self.s.halt = false;
        self.s.q0 = self.s.q;
        self.s.q = false;
        self.s.pfx = 0;
        self.dbg.called = 1;
        // a prefix followed by an instruction it does not affect is a no-op on its own
        if pfx != 0 && affected(code) {
            self.dbg.pfx = pfx;
            self.dbg.push(if pfx == 1 { 0xDD } else { 0xFD });
            self.dbg.pc = first.wrapping_sub(1);
        }
        else { self.dbg.pc = first; }
        self.dbg.push(code);
        match code {
            0xDD => { self.s.pfx = 1; self.dbg = Dbg::default(); Res::Ok }
            0xFD => { self.s.pfx = 2; self.dbg = Dbg::default(); Res::Ok }
            0xED => { let op = self.fetch(); self.dbg.push(op); self.ed(op) }
            0xCB => if pfx == 0 { let op = self.fetch(); self.dbg.push(op); self.cb(op); Res::Ok } else { self.xcb(pfx); Res::Ok },
            _ => self.main(code, pfx)
        }
    }

    fn main(&mut self, code: u8, pfx: u8) -> Res {
        let (x, y, z) = (code >> 6, code >> 3 & 7, code & 7);
        let (p, q) = (y >> 1, y & 1);
        match x {
            0 => match z {
                0 => match y {
                    0 => {}
                    1 => {
                        let af = (self.s.a as u16) << 8 | self.s.f as u16;
                        self.s.a = (self.s.af2 >> 8) as u8;
                        self.s.f = self.s.af2 as u8;
                        self.s.af2 = af;
                    }
                    2 => {
                        let ir = self.s.ir();
                        self.internal(ir, 1);
                        self.s.b = self.s.b.wrapping_sub(1);
                        self.jr(self.s.b != 0);
                    }
                    3 => self.jr(true),
                    _ => { let c = cond(y - 4, self.s.f); self.jr(c) }
                },
                1 => if q == 0 { let v = self.imm16(); self.set_rp(p, pfx, v) }
                     else {
                        let ir = self.s.ir();
                        self.internal(ir, 7);
                        let (a, b) = (self.s.ii(pfx), self.rp(p, pfx));
                        self.s.wz = a.wrapping_add(1);
                        let (r, f) = add16(a, b, self.s.f);
                        self.setf(f);
                        self.s.set_ii(pfx, r);
                     },
                2 => match y {
                    0 | 2 => {
                        let a = self.rp(p, 0);
                        self.s.wz = self.mix(self.s.a, a as u8);
                        self.wr(a, self.s.a);
                    }
                    1 | 3 => {
                        let a = self.rp(p, 0);
                        self.s.wz = a.wrapping_add(1);
                        self.s.a = self.rd(a);
                    }
                    4 => { let a = self.imm16(); let v = self.s.ii(pfx); self.st16(a, v) }
                    5 => { let a = self.imm16(); self.s.wz = a.wrapping_add(1); let v = self.rd16(a); self.s.set_ii(pfx, v) }
                    6 => { let a = self.imm16(); self.s.wz = self.mix(self.s.a, a as u8); self.wr(a, self.s.a) }
                    _ => { let a = self.imm16(); self.s.wz = a.wrapping_add(1); self.s.a = self.rd(a) }
                },
                3 => {
                    let ir = self.s.ir();
                    self.internal(ir, 2);
                    let v = self.rp(p, pfx);
                    self.set_rp(p, pfx, if q == 0 { v.wrapping_add(1) } else { v.wrapping_sub(1) });
                }
                4 | 5 => {
                    let f = self.s.f;
                    if y == 6 {
                        let a = self.ea(pfx);
                        let v = self.rd(a);
                        let (r, nf) = if z == 4 { inc8(v, f) } else { dec8(v, f) };
                        self.setf(nf);
                        self.internal(a, 1);
                        self.wr(a, r);
                    }
                    else {
                        let v = self.r8(y, pfx);
                        let (r, nf) = if z == 4 { inc8(v, f) } else { dec8(v, f) };
                        self.setf(nf);
                        self.set_r8(y, pfx, r);
                    }
                }
                6 => if y == 6 {
                        if pfx == 0 { let n = self.imm8(); self.wr(self.s.hl(), n) }
                        else {
                            let d = self.imm8();
                            let pc = self.s.pc;
                            let n = self.imm8();
                            self.internal(pc, 2);
                            let a = self.s.ii(pfx).wrapping_add(d as i8 as u16);
                            self.s.wz = a;
                            self.wr(a, n);
                        }
                     }
                     else { let n = self.imm8(); self.set_r8(y, pfx, n) },
                _ => {
                    let (a, f) = (self.s.a, self.s.f);
                    let (na, nf) = match y {
                        0..=3 => {
                            let (r, rf) = rot(y, a, f);
                            (r, f & (S | Z | P) | r & (X | Y) | rf & C)
                        }
                        4 => daa(a, f),
                        5 => (!a, f & (S | Z | P | C) | H | N | !a & (X | Y)),
                        _ => {
                            // bits 3 and 5 come from A, or'ed with F unless the previous
                            // instruction modified the flags (never or'ed on CMOS)
                            let src = if self.fl == 1 || self.s.q0 { a } else { a | f };
                            let keep = f & (S | Z | P) | src & (X | Y);
                            (a, if y == 6 { keep | C } else { keep | bit(f & C != 0, H) | bit(f & C == 0, C) })
                        }
                    };
                    self.s.a = na;
                    self.setf(nf);
                }
            },
            1 => {
                if code == 0x76 {
                    self.s.pc = self.s.pc.wrapping_sub(1);
                    self.s.halt = true;
                    return Res::Halt;
                }
                // H and L stay H and L when the other operand is memory
                if z == 6 { let a = self.ea(pfx); let v = self.rd(a); self.set_r8(y, 0, v) }
                else if y == 6 { let a = self.ea(pfx); let v = self.r8(z, 0); self.wr(a, v) }
                else { let v = self.r8(z, pfx); self.set_r8(y, pfx, v) }
            }
            2 => {
                let v = if z == 6 { let a = self.ea(pfx); self.rd(a) } else { self.r8(z, pfx) };
                self.alu(y, v);
            }
            _ => match z {
                0 => {
                    let ir = self.s.ir();
                    self.internal(ir, 1);
                    if cond(y, self.s.f) { self.ret() }
                }
                1 => if q == 0 {
                        let v = self.pop();
                        match p {
                            3 => { self.s.a = (v >> 8) as u8; self.s.f = v as u8 }
                            _ => self.set_rp(p, pfx, v)
                        }
                     }
                     else { match p {
                        0 => self.ret(),
                        1 => {
                            let (b, d, h) = (self.s.bc(), self.s.de(), self.s.hl());
                            self.s.set_bc(self.s.bc2); self.s.set_de(self.s.de2); self.s.set_hl(self.s.hl2);
                            self.s.bc2 = b; self.s.de2 = d; self.s.hl2 = h;
                        }
                        2 => self.s.pc = self.s.ii(pfx),
                        _ => { let ir = self.s.ir(); self.internal(ir, 2); self.s.sp = self.s.ii(pfx) }
                     } },
                2 => { let a = self.imm16(); self.s.wz = a; if cond(y, self.s.f) { self.s.pc = a } }
                3 => match y {
                    0 => { let a = self.imm16(); self.s.wz = a; self.s.pc = a }
                    2 => {
                        let n = self.imm8();
                        let a = self.s.a;
                        self.s.wz = self.mix(a, n);
                        return self.output((a as u16) << 8 | n as u16, a);
                    }
                    3 => {
                        let n = self.imm8();
                        let port = (self.s.a as u16) << 8 | n as u16;
                        self.s.wz = port.wrapping_add(1);
                        self.s.a = self.input(port);
                    }
                    4 => {
                        let sp = self.s.sp;
                        let sp1 = sp.wrapping_add(1);
                        let v = self.rd16(sp);
                        self.internal(sp1, 1);
                        let w = self.s.ii(pfx);
                        self.wr(sp1, (w >> 8) as u8);
                        self.wr(sp, w as u8);
                        self.internal(sp, 2);
                        self.s.set_ii(pfx, v);
                        self.s.wz = v;
                    }
                    5 => { let (d, h) = (self.s.de(), self.s.hl()); self.s.set_de(h); self.s.set_hl(d) }
                    6 => { self.s.iff1 = false; self.s.iff2 = false }
                    _ => { self.s.iff1 = true; self.s.iff2 = true; self.s.ei = true }
                },
                4 => { let c = cond(y, self.s.f); self.call(c) }
                5 => if q == 0 {
                        let ir = self.s.ir();
                        self.internal(ir, 1);
                        let v = if p == 3 { (self.s.a as u16) << 8 | self.s.f as u16 } else { self.rp(p, pfx) };
                        self.push(v);
                     }
                     else { self.call(true) },
                6 => { let n = self.imm8(); self.alu(y, n) }
                _ => {
                    let ir = self.s.ir();
                    self.internal(ir, 1);
                    self.push(self.s.pc);
                    self.s.pc = (y * 8) as u16;
                    self.s.wz = self.s.pc;
                }
            }
        }
        Res::Ok
    }

    fn alu(&mut self, y: u8, v: u8) {
        let (a, f) = alu(y, self.s.a, self.s.f, v);
        self.s.a = a;
        self.setf(f);
    }
    fn st16(&mut self, a: u16, v: u16) {
        self.s.wz = a.wrapping_add(1);
        self.wr(a, v as u8);
        self.wr(a.wrapping_add(1), (v >> 8) as u8);
    }
    fn jr(&mut self, taken: bool) {
        let pc = self.s.pc;
        if taken {
            let e = self.imm8();
            self.internal(pc, 5);
            self.s.pc = self.s.pc.wrapping_add(e as i8 as u16);
            self.s.wz = self.s.pc;
        }
        else {
            // the cycle takes place, but the host is not asked for the byte
            self.l.cycle(MREQ, pc, 3);
            self.dbg.push(self.o.peek(pc));
            self.s.pc = pc.wrapping_add(1);
        }
    }
    fn call(&mut self, taken: bool) {
        let a = self.imm16();
        self.s.wz = a;
        if taken {
            self.internal(self.s.pc.wrapping_sub(1), 1);
            self.push(self.s.pc);
            self.s.pc = a;
        }
    }
    fn ret(&mut self) { self.s.pc = self.pop(); self.s.wz = self.s.pc }

    /// CB page operation on a value: Some(result) unless BIT
    fn bitop(&mut self, op: u8, v: u8, xy: u8) -> Option<u8> {
        let (x, y) = (op >> 6, op >> 3 & 7);
        match x {
            0 => { let (r, f) = rot(y, v, self.s.f); self.setf(f); Some(r) }
            1 => {
                let t = v & 1 << y;
                let f = self.s.f & C | H | t & S | bit(t == 0, Z | P) | xy & (X | Y);
                self.setf(f);
                None
            }
            2 => Some(v & !(1 << y)),
            _ => Some(v | 1 << y),
        }
    }
    fn cb(&mut self, op: u8) {
        let z = op & 7;
        if z == 6 {
            let a = self.s.hl();
            let v = self.rd(a);
            self.internal(a, 1);
            let xy = (self.s.wz >> 8) as u8;
            if let Some(r) = self.bitop(op, v, xy) { self.wr(a, r) }
        }
        else {
            let v = self.r8(z, 0);
            if let Some(r) = self.bitop(op, v, v) { self.set_r8(z, 0, r) }
        }
    }
    fn xcb(&mut self, pfx: u8) {
        let d = self.imm8();
        let pc = self.s.pc;
        let op = self.imm8();
        self.internal(pc, 2);
        let a = self.s.ii(pfx).wrapping_add(d as i8 as u16);
        self.s.wz = a;
        let v = self.rd(a);
        self.internal(a, 1);
        if let Some(r) = self.bitop(op, v, (a >> 8) as u8) {
            self.wr(a, r);
            if op & 7 != 6 { self.set_r8(op & 7, 0, r) }
        }
    }
    fn ed(&mut self, op: u8) -> Res {
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let (p, q) = (y >> 1, y & 1);
        if x == 1 {
            match z {
                0 => {
                    let bc = self.s.bc();
                    let v = self.input(bc);
                    self.s.wz = bc.wrapping_add(1);
                    let f = self.s.f & C | szxyp(v);
                    self.setf(f);
                    if y != 6 { self.set_r8(y, 0, v) }
                }
                1 => {
                    let bc = self.s.bc();
                    self.s.wz = bc.wrapping_add(1);
                    let v = if y == 6 { if self.fl == 1 { 0xFF } else { 0 } } else { self.r8(y, 0) };
                    return self.output(bc, v);
                }
                2 => {
                    let ir = self.s.ir();
                    self.internal(ir, 7);
                    let (a, b) = (self.s.hl(), self.rp(p, 0));
                    self.s.wz = a.wrapping_add(1);
                    let (r, f) = if q == 0 { sbc16(a, b, self.s.f) } else { adc16(a, b, self.s.f) };
                    self.setf(f);
                    self.s.set_hl(r);
                }
                3 => {
                    let a = self.imm16();
                    if q == 0 { let v = self.rp(p, 0); self.st16(a, v) }
                    else { self.s.wz = a.wrapping_add(1); let v = self.rd16(a); self.set_rp(p, 0, v) }
                }
                4 => { let (r, f) = sub8(0, self.s.a, false); self.s.a = r; self.setf(f) }
                5 => {
                    self.s.iff1 = self.s.iff2;
                    let mut res = Res::Ok;
                    if y == 1 {
                        self.l.dpush(RETI, self.s.pc, 0, self.l.t);
                        if self.o.reti_break { res = Res::Reti(self.o.reti_token) }
                    }
                    self.ret();
                    return res;
                }
                6 => self.s.im = match y & 3 { 0 | 1 => 0, 2 => 1, _ => 2 },
                _ => match y {
                    0 | 1 => {
                        let ir = self.s.ir();
                        self.internal(ir, 1);
                        if y == 0 { self.s.i = self.s.a } else { let a = self.s.a; self.s.set_r(a) }
                    }
                    2 | 3 => {
                        let ir = self.s.ir();
                        self.internal(ir, 1);
                        let v = if y == 2 { self.s.i } else { self.s.rr() };
                        // NMOS: IFF2 already reads as reset while an interrupt is being accepted
                        let irq = self.o.irq(self.l.m1);
                        let pv = self.s.iff2 && !(self.fl == 0 && self.s.iff1 && irq);
                        let f = self.s.f & C | szxy(v) | bit(pv, P);
                        self.s.a = v;
                        self.setf(f);
                    }
                    4 | 5 => {
                        let hl = self.s.hl();
                        self.s.wz = hl.wrapping_add(1);
                        let (a, m) = (self.s.a, self.rd(hl));
                        self.internal(hl, 4);
                        let (na, nm) = if y == 4 { (a & 0xF0 | m & 15, a << 4 | m >> 4) }
                                       else { (a & 0xF0 | m >> 4, m << 4 | a & 15) };
                        self.wr(hl, nm);
                        self.s.a = na;
                        let f = self.s.f & C | szxyp(na);
                        self.setf(f);
                    }
                    _ => {}
                }
            }
        }
        else if x == 2 && z <= 3 && y >= 4 {
            let (dec, rep) = (q == 1, y >= 6);
            let step = if dec { 0xFFFF } else { 1u16 };
            let hl = self.s.hl();
            let mut again = false;
            let mut res = Res::Ok;
            match z {
                0 => {
                    let de = self.s.de();
                    let v = self.rd(hl);
                    self.wr(de, v);
                    self.internal(de, 2);
                    self.s.set_hl(hl.wrapping_add(step));
                    self.s.set_de(de.wrapping_add(step));
                    let bc = self.s.bc().wrapping_sub(1);
                    self.s.set_bc(bc);
                    let n = self.s.a.wrapping_add(v);
                    let f = self.s.f & (S | Z | C) | bit(bc != 0, P) | n & X | bit(n & 2 != 0, Y);
                    self.setf(f);
                    if rep && bc != 0 { again = true; self.internal(de, 5) }
                }
                1 => {
                    let v = self.rd(hl);
                    self.internal(hl, 5);
                    self.s.set_hl(hl.wrapping_add(step));
                    let bc = self.s.bc().wrapping_sub(1);
                    self.s.set_bc(bc);
                    let (r, sf) = sub8(self.s.a, v, false);
                    let n = r.wrapping_sub((sf & H != 0) as u8);
                    let f = self.s.f & C | sf & (S | Z | H | N) | bit(bc != 0, P) | n & X | bit(n & 2 != 0, Y);
                    self.setf(f);
                    if rep && bc != 0 && r != 0 { again = true; self.internal(hl, 5) }
                    else { self.s.wz = self.s.wz.wrapping_add(step) }
                }
                2 => {
                    let ir = self.s.ir();
                    self.internal(ir, 1);
                    let bc = self.s.bc();
                    let v = self.input(bc);
                    self.s.wz = bc.wrapping_add(step);
                    self.wr(hl, v);
                    self.s.b = self.s.b.wrapping_sub(1);
                    self.s.set_hl(hl.wrapping_add(step));
                    let k = v as u16 + self.s.c.wrapping_add(step as u8) as u16;
                    self.blockio(v, k);
                    if rep && self.s.b != 0 { self.internal(hl, 5); self.s.pc = self.s.pc.wrapping_sub(2) }
                }
                _ => {
                    let ir = self.s.ir();
                    self.internal(ir, 1);
                    let v = self.rd(hl);
                    self.s.b = self.s.b.wrapping_sub(1);
                    let bc = self.s.bc();
                    res = self.output(bc, v);
                    self.s.wz = bc.wrapping_add(step);
                    self.s.set_hl(hl.wrapping_add(step));
                    let k = v as u16 + self.s.l as u16;
                    self.blockio(v, k);
                    if rep && self.s.b != 0 { self.internal(bc, 5); self.s.pc = self.s.pc.wrapping_sub(2) }
                }
            }
            if again {
                self.s.pc = self.s.pc.wrapping_sub(2);
                self.s.wz = self.s.pc.wrapping_add(1);
            }
            return res;
        }
        Res::Ok
    }
    fn blockio(&mut self, v: u8, k: u16) {
        let b = self.s.b;
        let f = szxy(b) | bit(v & 0x80 != 0, N) | bit(k > 0xFF, H | C) | bit(parity(k as u8 & 7 ^ b), P);
        self.setf(f);
    }

    // ------------------------------------------------------------ interrupts and stepping
    /// a maskable interrupt, if it can be accepted now
    pub fn irq(&mut self) -> Res {
        if !self.s.iff1 || self.s.ei || self.s.pfx != 0 { return Res::NotAccepted }
        self.s.iff1 = false;
        self.s.iff2 = false;
        self.s.inc_r();
        if self.s.halt { self.s.halt = false; self.s.pc = self.s.pc.wrapping_add(1) }
        let pc = self.s.pc;
        let t = self.l.cycle(IRQ, pc, 6);
        self.l.dpush(IACK, pc, 0, t);
        if self.o.irq_wait != 0 { self.l.wait(pc, self.o.irq_wait) }
        match self.s.im {
            0 => self.exec(self.o.vec),
            1 => self.exec(0xFF),
            _ => {
                let ir = self.s.ir();
                self.internal(ir, 1);
                self.push(pc);
                self.s.pc = ir & 0xFF00 | self.o.vec as u16;
                self.exec(0xC3)
            }
        }
    }
    pub fn nmi(&mut self) -> Res {
        if self.s.ei || self.s.pfx != 0 { return Res::NotAccepted }
        self.s.iff1 = false;
        self.s.inc_r();
        if self.s.halt { self.s.halt = false; self.s.pc = self.s.pc.wrapping_add(1) }
        self.l.cycle(M1, self.s.pc, 4);
        let ir = self.s.ir();
        self.internal(ir, 1);
        self.push(self.s.pc);
        self.s.pc = 0x66;
        self.s.q0 = self.s.q;
        self.s.q = false;
        Res::Ok
    }
    /// interrupt, HALT cycle, or the next instruction of the program
    pub fn next(&mut self) -> Res {
        if self.s.iff1 && !self.s.ei && self.s.pfx == 0 && self.o.irq(self.l.m1) { return self.irq() }
        if self.s.halt {
            self.l.cycle(M1, self.s.pc, 4);
            self.s.inc_r();
            return Res::Ok;
        }
        let code = self.fetch();
        self.exec(code)
    }
}

impl<'a> M<'a> {
    /// steps until the limit is reached or a step asks to stop
    pub fn limited(&mut self, limit: u8) -> Res {
        while self.l.m1 < limit {
            let r = self.next();
            if r != Res::Ok { return r }
        }
        Res::Ok
    }
}

/// opcodes whose meaning a DD/FD prefix changes
pub fn affected(code: u8) -> bool {
    let (x, y, z) = (code >> 6, code >> 3 & 7, code & 7);
    match x {
        0 => match z {
            1 => y & 1 == 1 || y == 4,            // ADD ii,rr ; LD ii,nn
            2 => y == 4 || y == 5,                // LD (nn),ii ; LD ii,(nn)
            3 => y == 4 || y == 5,                // INC ii ; DEC ii
            4 | 5 | 6 => y >= 4 && y <= 6,        // INC/DEC/LD n on iih, iil, (ii+d)
            _ => false,
        },
        1 => code != 0x76 && (y >= 4 && y <= 6 || z >= 4 && z <= 6),
        2 => z >= 4 && z <= 6,
        _ => matches!(code, 0xCB | 0xE1 | 0xE3 | 0xE5 | 0xE9 | 0xF9),
    }
}
