//! Contracts of the state interface: accessors, reset, conversions, register pairs (C22),
//! the run-time selected CPU (C15), the counter clock and the default host (C18),
//! codes and constants (C19), the forwarding macros (C21).
use core::num::{NonZeroU16, NonZeroU8, Wrapping};
use z80emu::{z80::{any::Z80Any, *}, *};
use z80emu::host::{TsCounter, cycles::*};
use crate::{bus::*, contract::*, nd, real::*, st::*};

/// the whole programmer-visible state, R as read by software
pub fn same_st(k: u8, a: &St, b: &St) -> bool {
    eq_regs(a, b) && a.wz == b.wz && a.rr() == b.rr() && (k == 1 || a.q == b.q && a.q0 == b.q0)
}
const R8: [Reg8; 7] = [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::A];
const S16: [StkReg16; 4] = [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF];
pub fn pfx_of(n: u8) -> Option<Prefix> { match n { 0 => None, 1 => Some(Prefix::Xdd), _ => Some(Prefix::Yfd) } }
fn hi(v: u16) -> u8 { (v >> 8) as u8 }
fn r8(s: &St, r: Reg8, p: Option<Prefix>) -> u8 {
    match (r, p) {
        (Reg8::B, _) => s.b, (Reg8::C, _) => s.c, (Reg8::D, _) => s.d, (Reg8::E, _) => s.e, (Reg8::A, _) => s.a,
        (Reg8::H, None) => s.h, (Reg8::L, None) => s.l,
        (Reg8::H, Some(Prefix::Xdd)) => hi(s.ix), (Reg8::L, Some(Prefix::Xdd)) => s.ix as u8,
        (Reg8::H, Some(Prefix::Yfd)) => hi(s.iy), (Reg8::L, Some(Prefix::Yfd)) => s.iy as u8,
    }
}
fn set_r8(s: &mut St, r: Reg8, p: Option<Prefix>, v: u8) {
    let w = v as u16;
    match (r, p) {
        (Reg8::B, _) => s.b = v, (Reg8::C, _) => s.c = v, (Reg8::D, _) => s.d = v, (Reg8::E, _) => s.e = v, (Reg8::A, _) => s.a = v,
        (Reg8::H, None) => s.h = v, (Reg8::L, None) => s.l = v,
        (Reg8::H, Some(Prefix::Xdd)) => s.ix = s.ix & 0xFF | w << 8, (Reg8::L, Some(Prefix::Xdd)) => s.ix = s.ix & 0xFF00 | w,
        (Reg8::H, Some(Prefix::Yfd)) => s.iy = s.iy & 0xFF | w << 8, (Reg8::L, Some(Prefix::Yfd)) => s.iy = s.iy & 0xFF00 | w,
    }
}
fn r16(s: &St, r: StkReg16) -> u16 {
    match r { StkReg16::BC => s.bc(), StkReg16::DE => s.de(), StkReg16::HL => s.hl(), StkReg16::AF => (s.a as u16) << 8 | s.f as u16 }
}
fn set_r16(s: &mut St, r: StkReg16, v: u16) {
    match r { StkReg16::BC => s.set_bc(v), StkReg16::DE => s.set_de(v), StkReg16::HL => s.set_hl(v), StkReg16::AF => { s.a = hi(v); s.f = v as u8 } }
}
fn alt(s: &St, r: StkReg16) -> u16 {
    match r { StkReg16::BC => s.bc2, StkReg16::DE => s.de2, StkReg16::HL => s.hl2, StkReg16::AF => s.af2 }
}

impl<F: Fl> Cx<F> {
    /// every getter reads the named part of the state
    pub fn getters(&self) {
        let (z, s) = (&self.z, &self.s);
        macro_rules! eq { ($e:expr, $w:expr, $m:literal) => { let (x, y) = ($e, $w); oblige!(x == y, $m, ("flavour", F::K), ("before", s), ("real", x), ("required", y)) } }
        oblige!(same_st(F::K, &view(z), s), "OBL the public getters observe the state set with the public setters", ("flavour", F::K), ("before", s), ("real", view(z)));
        eq!(z.get_pc(), s.pc, "OBL get_pc"); eq!(z.get_sp(), s.sp, "OBL get_sp");
        eq!(z.get_acc(), s.a, "OBL get_acc"); eq!(z.get_flags().bits(), s.f, "OBL get_flags");
        eq!(z.get_memptr(), s.wz, "OBL get_memptr");
        eq!(z.get_r(), s.rr(), "OBL get_r"); eq!(z.get_i(), s.i, "OBL get_i"); eq!(z.get_ir(), s.ir(), "OBL get_ir");
        eq!(z.get_iffs(), (s.iff1, s.iff2), "OBL get_iffs"); eq!(z.is_halt(), s.halt, "OBL is_halt");
        eq!(z.get_im(), im_of(s.im), "OBL get_im");
        eq!(z.is_after_ei(), s.ei, "OBL is_after_ei"); eq!(z.is_after_prefix(), s.pfx != 0, "OBL is_after_prefix");
        eq!(z.get_prefix(), pfx_of(s.pfx), "OBL get_prefix");
        eq!(z.is_nmi_allowed(), !s.ei && s.pfx == 0, "OBL is_nmi_allowed");
        eq!(z.is_irq_allowed(), s.iff1 && !s.ei && s.pfx == 0, "OBL is_irq_allowed");
        let mut i = 0;
        while i < 7 {
            let mut p = 0;
            while p < 3 { eq!(z.get_reg(R8[i], pfx_of(p)), r8(s, R8[i], pfx_of(p)), "OBL get_reg"); p += 1 }
            i += 1;
        }
        let mut i = 0;
        while i < 4 {
            let v = r16(s, S16[i]);
            eq!(z.get_reg16(S16[i]), v, "OBL get_reg16"); eq!(z.get_reg2(S16[i]), (hi(v), v as u8), "OBL get_reg2");
            let v = alt(s, S16[i]);
            eq!(z.get_alt_reg16(S16[i]), v, "OBL get_alt_reg16"); eq!(z.get_alt_reg2(S16[i]), (hi(v), v as u8), "OBL get_alt_reg2");
            i += 1;
        }
        eq!(z.get_index16(Prefix::Xdd), s.ix, "OBL get_index16"); eq!(z.get_index2(Prefix::Xdd), (hi(s.ix), s.ix as u8), "OBL get_index2");
        eq!(z.get_index16(Prefix::Yfd), s.iy, "OBL get_index16"); eq!(z.get_index2(Prefix::Yfd), (hi(s.iy), s.iy as u8), "OBL get_index2");
        oblige!(z.clone() == *z, "OBL a clone equals the original", ("before", s));
    }
    fn after(&self, m: u8, op: impl FnOnce(&mut Z80<F>), spec: impl FnOnce(&mut St)) {
        let mut z = self.z.clone();
        let mut s = self.s;
        op(&mut z);
        spec(&mut s);
        oblige!(same_st(F::K, &view(&z), &s), "OBL a setter changes what it names and nothing else", ("flavour", F::K, "setter", m), ("before", self.s), ("real", view(&z)), ("required", s));
    }
    /// every setter changes what it names and nothing else
    pub fn setters(&self) {
        let (v, w, b, c, d) = (nd::u8(), nd::u16(), nd::bool(), nd::bool(), nd::u32());
        self.after(1, |z| z.set_pc(w), |s| s.pc = w);
        self.after(2, |z| z.set_sp(w), |s| s.sp = w);
        self.after(3, |z| z.set_acc(v), |s| s.a = v);
        self.after(4, |z| z.set_flags(CpuFlags::from_bits_retain(v)), |s| s.f = v);
        self.after(5, |z| z.set_memptr(w), |s| s.wz = w);
        self.after(6, |z| z.set_r(v), |s| s.set_r(v));
        self.after(7, |z| z.set_i(v), |s| s.i = v);
        self.after(8, |z| z.inc_r(), |s| s.inc_r());
        self.after(9, |z| z.add_r(d as i32), |s| s.rd = s.rd.wrapping_add(d as u8));
        self.after(10, |z| z.set_iffs(b, c), |s| { s.iff1 = b; s.iff2 = c });
        self.after(11, |z| z.halt(), |s| s.halt = true);
        self.after(12, |z| z.set_im(im_of(v % 3)), |s| s.im = v % 3);
        self.after(13, |z| z.ex_af_af(), |s| { let t = r16(s, StkReg16::AF); set_r16(s, StkReg16::AF, s.af2); s.af2 = t });
        self.after(14, |z| z.exx(), |s| {
            let t = (s.bc(), s.de(), s.hl());
            s.set_bc(s.bc2); s.set_de(s.de2); s.set_hl(s.hl2);
            s.bc2 = t.0; s.de2 = t.1; s.hl2 = t.2;
        });
        self.after(15, |z| z.restore_iff1(), |s| s.iff1 = s.iff2);
        self.after(16, |z| z.disable_interrupts(), |s| { s.iff1 = false; s.iff2 = false });
        self.after(17, |z| z.enable_interrupts(), |s| { s.iff1 = true; s.iff2 = true; s.ei = true });
        self.after(18, |z| z.normalize_r(), |_| ());
        self.after(19, |z| z.set_index16(Prefix::Xdd, w), |s| s.ix = w);
        self.after(20, |z| z.set_index16(Prefix::Yfd, w), |s| s.iy = w);
        self.after(21, |z| z.set_index2(Prefix::Xdd, hi(w), v), |s| s.ix = w & 0xFF00 | v as u16);
        self.after(22, |z| z.set_index2(Prefix::Yfd, hi(w), v), |s| s.iy = w & 0xFF00 | v as u16);
        let mut i = 0;
        while i < 4 {
            self.after(23 + i as u8, |z| z.set_reg16(S16[i], w), |s| set_r16(s, S16[i], w));
            self.after(27 + i as u8, |z| z.set_reg2(S16[i], hi(w), v), |s| set_r16(s, S16[i], w & 0xFF00 | v as u16));
            i += 1;
        }
        let mut i = 0;
        while i < 7 {
            let mut p = 0;
            while p < 3 { self.after(31 + i as u8 * 3 + p, |z| z.set_reg(R8[i], pfx_of(p), v), |s| set_r8(s, R8[i], pfx_of(p), v)); p += 1 }
            i += 1;
        }
    }
    /// reset from any state, and a new CPU
    pub fn resets(&self) {
        let want = St { a: 0xFF, f: 0xFF, af2: 0xFFFF, sp: 0xFFFF, ..St::default() };
        let mut z = self.z.clone();
        z.reset();
        oblige!(same_st(F::K, &view(&z), &want), "OBL reset leads to the documented initial state", ("flavour", F::K), ("before", self.s), ("real", view(&z)));
        oblige!(z == Z80::<F>::new(), "OBL a CPU after reset equals a new one", ("flavour", F::K), ("before", self.s));
        let mut a = F::cpu_into_any(self.z.clone());
        a.reset();
        oblige!(a == F::cpu_into_any(Z80::<F>::new()), "OBL reset of a run-time selected CPU keeps its variant", ("flavour", F::K), ("before", self.s));
    }
    /// a conversion to another variant keeps the state, except what the variant does not have
    pub fn converts<G: Fl + From<F>>(&self) {
        let mut want = self.s;
        if F::K != G::K && F::K == 1 { want.q = false; want.q0 = false }
        let g: Z80<G> = self.z.clone().into_flavour();
        oblige!(same_st(G::K, &view(&g), &want), "OBL into_flavour keeps the state", ("from", F::K, "to", G::K), ("before", self.s), ("real", view(&g)));
        oblige!(Z80::<G>::from_flavour(self.z.clone()) == g, "OBL from_flavour is into_flavour", ("from", F::K, "to", G::K), ("before", self.s));
        if F::K != 1 && G::K != 1 { oblige!(view(&g).q == self.s.q && view(&g).q0 == self.s.q0, "OBL the flags-modified history survives", ("from", F::K, "to", G::K), ("before", self.s)); }
    }
    /// two CPUs are equal after normalize_r exactly when they are in the same state
    pub fn normal(&self) {
        let t = St::any();
        let mut y = make::<F>(&t);
        let mut z = self.z.clone();
        y.normalize_r();
        z.normalize_r();
        oblige!((y == z) == same_st(F::K, &self.s, &t), "OBL after normalize_r equality is equality of the CPU state", ("flavour", F::K), ("one", self.s), ("other", t));
        // differing in a single part
        let mut t = self.s;
        t.r = nd::u8(); t.rd = nd::u8();
        let mut y = make::<F>(&t);
        y.normalize_r();
        oblige!((y == z) == (self.s.rr() == t.rr()), "OBL normalize_r removes the difference in representation of R", ("flavour", F::K), ("one", self.s), ("other", t));
    }
}

/// RegisterPair is a 16-bit register made of two halves
pub fn register_pair() {
    use z80emu::RegisterPair as P;
    let (v, w, b, c) = (nd::u16(), nd::u16(), nd::u8(), nd::u8());
    let p = P::from(v);
    macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("value", v, "operand", w, "bytes", b, c)) } }
    macro_rules! mutate { (|$x:ident| $e:expr) => {{ let mut $x = p; $e; $x.get16() }} }
    ob!(p.get16() == v && p.get8hi() == hi(v) && p.get8lo() == v as u8 && p.get() == (hi(v), v as u8), "OBL RegisterPair reads back what it was made of");
    ob!(P::from(v as i16) == p && P::from(v.to_le_bytes()) == p && P::from((hi(v), v as u8)) == p, "OBL RegisterPair conversions agree");
    ob!((P::from(w) == p) == (v == w), "OBL RegisterPair equality is equality of values");
    ob!(mutate!(|x| x.set16(w)) == w, "OBL set16");
    ob!(mutate!(|x| x.set8hi(b)) == v & 0xFF | (b as u16) << 8, "OBL set8hi");
    ob!(mutate!(|x| x.set8lo(b)) == v & 0xFF00 | b as u16, "OBL set8lo");
    ob!(mutate!(|x| x.set(b, c)) == (b as u16) << 8 | c as u16, "OBL set");
    ob!(mutate!(|x| x.inc16()) as u32 == (v as u32 + 1) % 0x10000, "OBL inc16");
    ob!(mutate!(|x| x.dec16()) as u32 == (v as u32 + 0xFFFF) % 0x10000, "OBL dec16");
    ob!(mutate!(|x| x.add16(w)) as u32 == (v as u32 + w as u32) % 0x10000, "OBL add16");
    let mut z = false;
    ob!(mutate!(|x| z = x.dec16_is_zero()) as u32 == (v as u32 + 0xFFFF) % 0x10000 && z == (v == 1), "OBL dec16_is_zero");
    let mut seen = !v;
    ob!(mutate!(|x| x.op16(|o| { seen = o; (b, c) })) == (b as u16) << 8 | c as u16 && seen == v, "OBL op16");
    let mut seen8 = !hi(v);
    ob!(mutate!(|x| x.op8hi(|o| { seen8 = o; b })) == v & 0xFF | (b as u16) << 8 && seen8 == hi(v), "OBL op8hi");
    let mut seen8 = !(v as u8);
    ob!(mutate!(|x| x.op8lo(|o| { seen8 = o; b })) == v & 0xFF00 | b as u16 && seen8 == v as u8, "OBL op8lo");
    ob!(mutate!(|x| unsafe { *x.ptr8hi() = b }) == v & 0xFF | (b as u16) << 8 && mutate!(|x| unsafe { *x.ptr8lo() = b }) == v & 0xFF00 | b as u16, "OBL pointers to the halves");
}

/// flag helpers
pub fn cpu_flags() {
    let (f, v, a, b, c) = (nd::u8(), nd::u8(), nd::bool(), nd::bool(), nd::bool());
    let x = CpuFlags::from_bits_retain(f);
    macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("flags", f, "value", v)) } }
    ob!(x.sf() == (f & 0x80 != 0) && x.zf() == (f & 0x40 != 0) && x.hf() == (f & 0x10 != 0) && x.pvf() == (f & 4 != 0) && x.nf() == (f & 2 != 0) && x.cf() == (f & 1 != 0), "OBL flag tests");
    ob!(CpuFlags::S.bits() == 0x80 && CpuFlags::Z.bits() == 0x40 && CpuFlags::Y.bits() == 0x20 && CpuFlags::H.bits() == 0x10 && CpuFlags::X.bits() == 8 && CpuFlags::PV.bits() == 4 && CpuFlags::P.bits() == 4 && CpuFlags::V.bits() == 4 && CpuFlags::N.bits() == 2 && CpuFlags::C.bits() == 1 && CpuFlags::XY.bits() == 0x28 && CpuFlags::HMASK.bits() == 0x0F, "OBL flag bits");
    let bit = |c: bool, m: u8| if c { m } else { 0 };
    ob!(CpuFlags::mask_cvz(a, b, c).bits() == bit(a, 1) | bit(b, 4) | bit(c, 0x40), "OBL mask_cvz");
    ob!(CpuFlags::mask_sign(v).bits() == v & 0x80, "OBL mask_sign");
    ob!(CpuFlags::mask_zero(v).bits() == bit(v == 0, 0x40), "OBL mask_zero");
    ob!(CpuFlags::mask_carry(a).bits() == bit(a, 1) && CpuFlags::mask_nf(a).bits() == bit(a, 2) && CpuFlags::mask_hf(a).bits() == bit(a, 0x10) && CpuFlags::mask_hcf(a).bits() == bit(a, 0x11) && CpuFlags::mask_pvf(a).bits() == bit(a, 4), "OBL single flag masks");
    let mut even = true;
    let mut i = 0;
    while i < 8 { if v >> i & 1 == 1 { even = !even } i += 1 }
    ob!(CpuFlags::parity(v).bits() == bit(even, 4), "OBL parity");
    ob!(CpuFlags::mask_xy(v).bits() == v & 0x28 && CpuFlags::mask_sxy(v).bits() == v & 0xA8, "OBL undocumented flag masks");
    let mut y = x;
    y.reset();
    ob!(y.bits() == 0, "OBL flags reset");
}

// ------------------------------------------------------------------------- C15
impl<F: Fl> Cx<F> {
    /// every getter of the enum is the getter of the CPU in it
    pub fn any_getters(&self) {
        let z = &self.z;
        let a = F::cpu_into_any(self.z.clone());
        let mut n = 0u8;
        macro_rules! same { ($($e:expr),* ; $c:ident) => { $({
            n += 1;
            let x = { let $c = z; $e };
            let y = { let $c = &a; $e };
            oblige!(x == y, "OBL a getter of Z80Any is the getter of the CPU it contains", ("flavour", F::K, "getter", n), ("before", self.s), ("inner", x), ("any", y));
        })* } }
        same!(c_.get_pc(), c_.get_sp(), c_.get_acc(), c_.get_flags(), c_.get_r(), c_.get_i(), c_.get_ir(), c_.get_iffs(), c_.is_halt(), c_.get_im(), c_.get_memptr(),
            c_.is_irq_allowed(), c_.is_nmi_allowed(), c_.is_after_ei(), c_.is_after_prefix(), c_.get_prefix(),
            c_.get_index2(Prefix::Xdd), c_.get_index2(Prefix::Yfd), c_.get_index16(Prefix::Xdd), c_.get_index16(Prefix::Yfd) ; c_);
        let mut i = 0;
        while i < 4 {
            let r = S16[i];
            same!(c_.get_reg2(r), c_.get_reg16(r), c_.get_alt_reg2(r), c_.get_alt_reg16(r) ; c_);
            i += 1;
        }
        let mut i = 0;
        while i < 7 {
            let r = R8[i];
            same!(c_.get_reg(r, None), c_.get_reg(r, Some(Prefix::Xdd)), c_.get_reg(r, Some(Prefix::Yfd)) ; c_);
            i += 1;
        }
        oblige!(same_st(F::K, &view(&F::unwrap_cpu_any(a)), &self.s), "OBL getters of Z80Any change nothing", ("flavour", F::K), ("before", self.s));
    }
    /// every setter of the enum is the setter of the CPU in it (one `part` of four)
    pub fn any_setters(&self, part: u8) {
        let (v, w, b, c, d) = (nd::u8(), nd::u16(), nd::bool(), nd::bool(), nd::u32());
        let mut n = 0u8;
        macro_rules! same { ($($e:expr),* ; $c:ident) => { $({
            n += 1;
            if n % 4 == part {
                let mut z = self.z.clone();
                let mut a = F::cpu_into_any(self.z.clone());
                { let $c = &mut z; $e }
                { let $c = &mut a; $e }
                let (x, y) = (view(&z), view(&F::unwrap_cpu_any(a)));
                oblige!(same_st(F::K, &x, &y), "OBL a setter of Z80Any is the setter of the CPU it contains", ("flavour", F::K, "setter", n), ("before", self.s), ("inner", x), ("any", y));
            }
        })* } }
        same!(c_.set_pc(w), c_.set_sp(w), c_.set_acc(v), c_.set_flags(CpuFlags::from_bits_retain(v)), c_.inc_r(), c_.add_r(d as i32), c_.set_r(v), c_.set_i(v), c_.set_iffs(b, c),
            c_.halt(), c_.set_im(im_of(v % 3)), c_.set_memptr(w), c_.ex_af_af(), c_.exx(), c_.restore_iff1(), c_.disable_interrupts(), c_.enable_interrupts(), c_.normalize_r(),
            c_.set_index16(Prefix::Xdd, w), c_.set_index16(Prefix::Yfd, w), c_.set_index2(Prefix::Xdd, v, hi(w)), c_.set_index2(Prefix::Yfd, v, hi(w)), c_.reset() ; c_);
        let mut i = 0;
        while i < 4 {
            let r = S16[i];
            same!(c_.set_reg16(r, w), c_.set_reg2(r, v, hi(w)) ; c_);
            i += 1;
        }
        let mut i = 0;
        while i < 7 {
            let r = R8[i];
            same!(c_.set_reg(r, None, v), c_.set_reg(r, Some(Prefix::Xdd), v), c_.set_reg(r, Some(Prefix::Yfd), v) ; c_);
            i += 1;
        }
    }
    /// conversions and tags of the enum
    pub fn any_converts(&self) where Z80Any: From<Z80<F>>, Z80<F>: From<Z80Any>, NMOS: From<F>, CMOS: From<F>, BM1: From<F> {
        let a = Z80Any::from(self.z.clone());
        macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("flavour", F::K), ("before", self.s)) } }
        ob!(a.is_nmos() == (F::K == 0) && a.is_cmos() == (F::K == 1) && a.is_bm1() == (F::K == 2), "OBL Z80Any knows its variant");
        ob!(same_tag(a.tag(), F::tag()) && same_tag(F::tag(), ["NMOS", "CMOS", "BM1"][F::K as usize]), "OBL the tag names the variant");
        ob!(matches!(&a, Z80Any::NMOS(_)) == (F::K == 0) && matches!(&a, Z80Any::CMOS(_)) == (F::K == 1) && matches!(&a, Z80Any::BM1(_)) == (F::K == 2), "OBL From<Z80> makes the variant of the CPU");
        ob!(F::unwrap_cpu_any(a.clone()) == self.z, "OBL unwrapping gives the CPU back");
        ob!(Z80::<F>::from(a.clone()) == self.z, "OBL converting back to the same variant gives the CPU back");
        ob!(a.clone() == a, "OBL a clone of Z80Any equals it");
    }
    /// conversions of the enum between variants are the conversions of the CPU in it
    pub fn any_halves(&self) where Z80Any: From<Z80<F>>, Z80<F>: From<Z80Any>, NMOS: From<F>, CMOS: From<F>, BM1: From<F> {
        macro_rules! ob { ($G:ty, $v:ident, $m1:ident, $m2:ident, $m:literal) => {{
            let a = F::cpu_into_any(self.z.clone());
            let want = view(&self.z.clone().into_flavour::<$G>());
            match a.$m1() { Z80Any::$v(z) => oblige!(same_st(<$G as Fl>::K, &view(&z), &want), $m, ("flavour", F::K), ("before", self.s)), _ => oblige!(false, $m, ("flavour", F::K)) }
            let a = F::cpu_into_any(self.z.clone());
            oblige!(same_st(<$G as Fl>::K, &view(&Z80::<$G>::from(a)), &want), $m, ("flavour", F::K), ("before", self.s));
            let a = F::cpu_into_any(self.z.clone()).$m1();
            oblige!(same_st(<$G as Fl>::K, &view(&a.$m2()), &want), $m, ("flavour", F::K), ("before", self.s));
        }} }
        ob!(NMOS, NMOS, into_nmos, unwrap_nmos, "OBL into_nmos");
        ob!(CMOS, CMOS, into_cmos, unwrap_cmos, "OBL into_cmos");
        ob!(BM1, BM1, into_bm1, unwrap_bm1, "OBL into_bm1");
    }
}
fn same_tag(a: &str, b: &str) -> bool { a.as_bytes().len() == b.as_bytes().len() && { let mut i = 0; let mut ok = true; while i < a.len() { if a.as_bytes()[i] != b.as_bytes()[i] { ok = false } i += 1 } ok } }
/// new CPUs by constructor and by tag, in any letter case
pub fn any_new() {
    macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, 0) } }
    ob!(Z80Any::new_nmos() == Z80Any::NMOS(Z80::new()) && Z80Any::new_cmos() == Z80Any::CMOS(Z80::new()) && Z80Any::new_bm1() == Z80Any::BM1(Z80::new()), "OBL constructors make the named variant");
    let lower = nd::u8();
    let mut t = *b"NMOS"; let mut i = 0; while i < 4 { if lower >> i & 1 == 1 { t[i] |= 0x20 } i += 1 }
    ob!(Z80Any::with_tag(core::str::from_utf8(&t).unwrap()) == Some(Z80Any::new_nmos()), "OBL with_tag NMOS");
    let mut t = *b"CMOS"; let mut i = 0; while i < 4 { if lower >> i & 1 == 1 { t[i] |= 0x20 } i += 1 }
    ob!(Z80Any::with_tag(core::str::from_utf8(&t).unwrap()) == Some(Z80Any::new_cmos()), "OBL with_tag CMOS");
    let mut t = *b"BM1"; let mut i = 0; while i < 2 { if lower >> i & 1 == 1 { t[i] |= 0x20 } i += 1 }
    ob!(Z80Any::with_tag(core::str::from_utf8(&t).unwrap()) == Some(Z80Any::new_bm1()), "OBL with_tag BM1");
    ob!(Z80Any::with_tag("").is_none() && Z80Any::with_tag("Z80").is_none() && Z80Any::with_tag("BM").is_none() && Z80Any::with_tag("NMOSX").is_none(), "OBL with_tag refuses an unknown tag");
}
/// the executing operations of the enum are those of the CPU it contains
macro_rules! any_op { ($n:ident, $name:literal, $base:ident, $fetch:expr, $irq:expr, |$a:ident, $c:ident, $t:ident, $g:ident, $code:ident| $e:expr) => {
    pub struct $n;
    impl Op for $n {
        const FETCH: bool = $fetch;
        const IRQ: bool = $irq;
        const NAME: &'static str = $name;
        fn real<F: Fl>(z: &mut Z80<F>, $c: &mut Ctl, $t: &mut Clk, $g: &mut crate::spec::Dbg, $code: u8) -> Res {
            let mut $a = F::cpu_into_any(z.clone());
            let r = $e;
            *z = F::unwrap_cpu_any($a);
            r
        }
        fn spec(m: &mut crate::spec::M, code: u8) -> Res { $base::spec(m, code) }
        fn requires(s: &St) -> bool { $base::requires(s) }
    }
} }
const D: Option<CpuDebugFn> = None;
any_op!(AInstr, "Z80Any::execute_instruction", DInstr, false, false, |a, c, t, g, code| res_of(a.execute_instruction(c, t, Some(|d| note(g, d)), code)));
any_op!(ANext, "Z80Any::execute_next", DNext, true, false, |a, c, t, g, _code| res_of(a.execute_next(c, t, Some(|d| note(g, d)))));
any_op!(ALimit, "Z80Any::execute_with_limit", Limit, true, false, |a, c, t, _g, _code| res_of(a.execute_with_limit(c, t, 1)));
any_op!(ALimit2, "Z80Any::execute_with_limit", Limit2, true, false, |a, c, t, _g, _code| res_of(a.execute_with_limit(c, t, 2)));
any_op!(AIrq, "Z80Any::irq", DIrq, false, true, |a, c, t, g, _code| match a.irq(c, t, Some(|d| note(g, d))) { None => Res::NotAccepted, Some(r) => res_of(r) });
any_op!(ANmi, "Z80Any::nmi", Nmi, false, false, |a, c, t, _g, _code| if a.nmi(c, t) { Res::Ok } else { Res::NotAccepted });
type Limit2 = LimitN<2>;
const _: Option<CpuDebugFn> = D;

// ------------------------------------------------------------------------- C18
/// TsCounter<T> counts exactly, modulo the width of T, and stamps each cycle with its own time
macro_rules! tscounter { ($f:ident, $t:ty, $u:ty, $draw:expr) => {
    pub fn $f() {
        let (v, limit): ($t, $t) = ($draw as $t, $draw as $t);
        let addr = nd::u16();
        let n8 = nd::u8(); let n16 = nd::u16();
        let add = |n: u64| -> $t { (v as $u).wrapping_add(n as $u) as $t };
        macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("counter", v, "limit", limit, "n", n8, n16)) } }
        let new = || TsCounter::<$t>::from(v);
        let mut c = new();
        ob!(c.as_timestamp() == v && (*c).0 == v && TsCounter::from(Wrapping(v)) == c && c.0 == Wrapping(v), "OBL a counter holds its value");
        ob!(c.is_past_limit(limit) == (v >= limit), "OBL is_past_limit is true from the limit on");
        let t = c.add_m1(addr); ob!(t == add(4) && c.as_timestamp() == add(4), "OBL add_m1 counts and stamps 4 T-states");
        let mut c = new(); let t = c.add_mreq(addr); ob!(t == add(3) && c.as_timestamp() == add(3), "OBL add_mreq counts and stamps 3 T-states");
        let mut c = new(); let t = c.add_io(addr); ob!(t == add(1) && c.as_timestamp() == add(4), "OBL add_io counts 4 T-states and stamps the request");
        let mut c = new(); let t = c.add_irq(addr); ob!(t == add(2) && c.as_timestamp() == add(6), "OBL add_irq counts 6 T-states and stamps the request");
        let mut c = new(); if let Some(n) = NonZeroU8::new(n8) { c.add_no_mreq(addr, n); ob!(c.as_timestamp() == add(n8 as u64), "OBL add_no_mreq counts what it is given"); }
        let mut c = new(); if let Some(n) = NonZeroU16::new(n16) { c.add_wait_states(addr, n); ob!(c.as_timestamp() == add(n16 as u64), "OBL add_wait_states counts what it is given"); }
        let mut c = new(); *c += Wrapping(limit); ob!(c.as_timestamp() == (v as $u).wrapping_add(limit as $u) as $t, "OBL the counter can be changed through DerefMut");
        ob!(TsCounter::<$t>::default().as_timestamp() == 0, "OBL a new counter is zero");
        ob!(M1_CYCLE_TS == 4 && MEMRW_CYCLE_TS == 3 && IO_CYCLE_TS == 4 && IO_IORQ_LOW_TS == 1 && IRQ_ACK_CYCLE_TS == 6 && INT_IORQ_LOW_TS == 2, "OBL cycle lengths");
        ob!((new() == TsCounter::from(limit)) == (v == limit) && (new() < TsCounter::from(limit)) == (v < limit), "OBL counters compare by value");
    }
} }
fn any64() -> u64 { (nd::u32() as u64) << 32 | nd::u32() as u64 }
tscounter!(tsc_u16, u16, u16, nd::u16());
tscounter!(tsc_u32, u32, u32, nd::u32());
tscounter!(tsc_u64, u64, u64, any64());
tscounter!(tsc_i32, i32, u32, nd::u32());
tscounter!(tsc_i64, i64, u64, any64());
tscounter!(tsc_u128, u128, u128, (any64() as u128) << 64 | any64() as u128);

/// what a host gets that implements nothing, or only read_debug
pub struct Plain;
impl Io for Plain { type Timestamp = u32; type WrIoBreak = u8; type RetiBreak = u8; }
impl Memory for Plain { type Timestamp = u32; }
/// `read_debug` answers `at` at one arbitrary address and `other` elsewhere
pub struct Rom { pub addr: u16, pub at: u8, pub other: u8 }
impl Memory for Rom { type Timestamp = u32; fn read_debug(&self, a: u16) -> u8 { if a == self.addr { self.at } else { self.other } } }
pub fn default_host() {
    let (a, b, v, t) = (nd::u16(), nd::u16(), nd::u8(), nd::u32());
    let mut m = Rom { addr: nd::u16(), at: nd::u8(), other: nd::u8() };
    let at = |m: &Rom, x: u32| m.read_debug((x % 0x10000) as u16);
    macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("address", a, b, "value", v)) } }
    ob!(m.read_mem(a, t) == at(&m, a as u32), "OBL read_mem reads what read_debug shows");
    ob!(m.read_opcode(a, b, t) == at(&m, a as u32), "OBL read_opcode reads what read_debug shows");
    ob!(m.read_mem16(a, t) == at(&m, a as u32) as u16 | (at(&m, a as u32 + 1) as u16) << 8, "OBL read_mem16 reads two bytes, low first, wrapping at the end");
    m.write_mem(a, v, t);
    let mut p = Plain;
    ob!(Memory::read_debug(&p, a) == 0xFF && p.read_mem(a, t) == 0xFF && p.read_mem16(a, t) == 0xFFFF, "OBL memory nobody implements reads FFh");
    ob!(p.read_io(a, t) == (0xFF, None), "OBL a port nobody implements reads FFh without waiting");
    ob!(p.write_io(a, v, t) == (None, None), "OBL a port nobody implements takes anything without a break");
    ob!(!p.is_irq(t), "OBL no interrupt is requested by default");
    ob!(p.irq_data(a, t) == (0xFF, None), "OBL RST 38h is supplied by default");
    ob!(p.reti(a, t).is_none(), "OBL RETI asks for no break by default");
}

// ------------------------------------------------------------------------- C19
pub fn codes() {
    let c = nd::u8();
    let f = nd::u8();
    macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("code", c, "flags", f)) } }
    let (y, z) = (c >> 3 & 7, c & 7);
    let reg = [Some(Reg8::B), Some(Reg8::C), Some(Reg8::D), Some(Reg8::E), Some(Reg8::H), Some(Reg8::L), None, Some(Reg8::A)];
    ob!(Reg8::try_from(c).ok() == reg[z as usize], "OBL an 8-bit register is named by bits 0 to 2");
    if let Ok(r) = Reg8::try_from(c) { ob!(r.to_code() == z && u8::from(r) == z && Reg8::try_from(r.to_code()) == Ok(r), "OBL the code of an 8-bit register names it"); }
    let p = c >> 4 & 3;
    ob!(Reg16::from_code(c) == [Reg16::BC, Reg16::DE, Reg16::HL, Reg16::SP][p as usize] && Reg16::from(c) == Reg16::from_code(c), "OBL a 16-bit register is named by bits 4 and 5");
    ob!(Reg16::from_code(c).to_code() == p << 4 && u8::from(Reg16::from_code(c)) == p << 4, "OBL the code of a 16-bit register");
    ob!(StkReg16::from_code(c) == [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF][p as usize] && StkReg16::from(c) == StkReg16::from_code(c), "OBL a stack register is named by bits 4 and 5");
    ob!(StkReg16::from_code(c).to_code() == p << 4 && u8::from(StkReg16::from_code(c)) == p << 4, "OBL the code of a stack register");
    let cc = [Condition::NZ, Condition::Z, Condition::NC, Condition::C, Condition::PO, Condition::PE, Condition::P, Condition::M];
    let k = Condition::from_code(c);
    ob!(k == cc[y as usize] && Condition::from(c) == k && k.to_code() == y << 3 && u8::from(k) == y << 3, "OBL a condition is named by bits 3 to 5");
    ob!(Condition::from_jr_subset(c) == cc[y as usize & 3], "OBL a relative jump condition is named by bits 3 and 4");
    let bit = [0x40, 0x40, 1, 1, 4, 4, 0x80, 0x80][y as usize];
    ob!(k.is_satisfied(CpuFlags::from_bits_retain(f)) == ((f & bit != 0) == (y & 1 == 1)), "OBL a condition is satisfied exactly when its flag has its value");
    ob!(Prefix::try_from(c).ok() == match c { 0xDD => Some(Prefix::Xdd), 0xFD => Some(Prefix::Yfd), _ => None }, "OBL DD and FD are the prefixes");
    ob!(Prefix::Xdd.to_code() == 0xDD && Prefix::Yfd.to_code() == 0xFD && u8::from(Prefix::Xdd) == 0xDD && u8::from(Prefix::Yfd) == 0xFD, "OBL the code of a prefix");
    ob!(InterruptMode::try_from(c).ok() == match c { 0 => Some(InterruptMode::Mode0), 1 => Some(InterruptMode::Mode1), 2 => Some(InterruptMode::Mode2), _ => None }, "OBL interrupt modes are 0, 1 and 2");
    let im = im_of(c % 3);
    ob!(im.to_mode_number() == c % 3 && u8::from(im) == c % 3, "OBL the number of an interrupt mode");
}
/// the published opcode constants pick out exactly the instructions they are named after
pub fn constants() {
    use z80emu::opconsts::*;
    let c = nd::u8();
    let (x, y, z) = (c >> 6, c >> 3 & 7, c & 7);
    macro_rules! ob { ($c:expr, $m:literal) => { oblige!($c, $m, ("code", c)) } }
    ob!(ED_PREFIX == 0xED && DD_PREFIX == Prefix::Xdd.to_code() && FD_PREFIX == Prefix::Yfd.to_code() && NOP_OPCODE == 0 && HALT_OPCODE == 0x76 && DI_OPCODE == 0xF3 && EI_OPCODE == 0xFB, "OBL single opcodes");
    ob!(RET_OPCODE == 0xC9 && CALL_OPCODE == 0xCD && JP_OPCODE == 0xC3 && JR_OPCODE == 0x18 && DJNZ_OPCODE == 0x10, "OBL unconditional transfers");
    ob!((c & RET_CC_OPMASK == RET_CC_OPBASE) == (x == 3 && z == 0), "OBL RET cc mask");
    ob!((c & CALL_CC_OPMASK == CALL_CC_OPBASE) == (x == 3 && z == 4), "OBL CALL cc mask");
    ob!((c & JP_CC_OPMASK == JP_CC_OPBASE) == (x == 3 && z == 2), "OBL JP cc mask");
    ob!((c & JR_CC_OPMASK == JR_CC_OPBASE) == (x == 0 && z == 0 && y >= 4), "OBL JR cc mask");
    ob!((c & RST_OPMASK == RST_OPBASE) == (x == 3 && z == 7), "OBL RST mask");
    ob!((c & RETN_OP2_MASK == RETN_OP2_BASE) == (x == 1 && z == 5), "OBL RETN mask");
    let k = Condition::from_code(c);
    ob!(RET_CC_OPBASE | k.to_code() == 0xC0 | y << 3 && CALL_CC_OPBASE | k.to_code() == 0xC4 | y << 3 && JP_CC_OPBASE | k.to_code() == 0xC2 | y << 3 && JR_CC_OPBASE | Condition::from_jr_subset(c).to_code() == 0x20 | (y & 3) << 3, "OBL building conditional opcodes");
    ob!(RETI_OPCODE_T2 == (0xED, 0x4D) && RETN_OPCODE_T2 == (0xED, 0x45), "OBL RETI and RETN");
    ob!([RST_00H_OPCODE, RST_08H_OPCODE, RST_10H_OPCODE, RST_18H_OPCODE, RST_20H_OPCODE, RST_28H_OPCODE, RST_30H_OPCODE, RST_38H_OPCODE][y as usize] == 0xC7 | y << 3 && RST_OPBASE | (c & 0x38) == 0xC7 | y << 3, "OBL RST opcodes");
}

// ------------------------------------------------------------------------- C21
/// a host that remembers the last call made to it and answers arbitrarily
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Rec { pub calls: u8, pub last: (u8, u16, u16, u32), pub b: u8, pub w: u16, pub t: u32, pub q: bool }
impl Rec {
    fn any() -> Self { Rec { calls: 0, last: (0, 0, 0, 0), b: nd::u8(), w: nd::u16(), t: nd::u32(), q: nd::bool() } }
    fn put(&mut self, k: u8, a: u16, b: u16, t: u32) { self.calls += 1; self.last = (k, a, b, t) }
}
impl Clock for Rec {
    type Limit = u32; type Timestamp = u32;
    fn is_past_limit(&self, l: u32) -> bool { (l ^ self.t) & 1 == 1 }
    fn add_irq(&mut self, a: u16) -> u32 { self.put(1, a, 0, 0); self.t ^ 1 }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) { self.put(2, a, n.get() as u16, 0) }
    fn add_m1(&mut self, a: u16) -> u32 { self.put(3, a, 0, 0); self.t ^ 3 }
    fn add_mreq(&mut self, a: u16) -> u32 { self.put(4, a, 0, 0); self.t ^ 4 }
    fn add_io(&mut self, a: u16) -> u32 { self.put(5, a, 0, 0); self.t ^ 5 }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) { self.put(6, a, n.get(), 0) }
    fn as_timestamp(&self) -> u32 { self.t ^ 7 }
}
impl Io for Rec {
    type Timestamp = u32; type WrIoBreak = u8; type RetiBreak = u16;
    fn read_io(&mut self, p: u16, t: u32) -> (u8, Option<NonZeroU16>) { self.put(11, p, 0, t); (self.b, NonZeroU16::new(self.w)) }
    fn write_io(&mut self, p: u16, v: u8, t: u32) -> (Option<u8>, Option<NonZeroU16>) { self.put(12, p, v as u16, t); (if self.q { Some(self.b) } else { None }, NonZeroU16::new(self.w)) }
    fn is_irq(&mut self, t: u32) -> bool { self.put(13, 0, 0, t); self.q }
    fn irq_data(&mut self, p: u16, t: u32) -> (u8, Option<NonZeroU16>) { self.put(14, p, 0, t); (!self.b, NonZeroU16::new(self.w)) }
    fn reti(&mut self, a: u16, t: u32) -> Option<u16> { self.put(15, a, 0, t); if self.q { Some(self.w) } else { None } }
}
impl Memory for Rec {
    type Timestamp = u32;
    fn read_mem(&self, a: u16, t: u32) -> u8 { self.b ^ a as u8 ^ t as u8 ^ hi(a) }
    fn read_mem16(&self, a: u16, t: u32) -> u16 { self.w ^ a ^ t as u16 ^ (t >> 16) as u16 }
    fn read_opcode(&mut self, a: u16, ir: u16, t: u32) -> u8 { self.put(21, a, ir, t); self.b ^ 0x55 }
    fn write_mem(&mut self, a: u16, v: u8, t: u32) { self.put(22, a, v as u16, t) }
    fn read_debug(&self, a: u16) -> u8 { self.b ^ a as u8 ^ hi(a) ^ 0xAA }
}
// the wrappers users write with the macros
pub struct WAll(pub Rec);
impl Clock for WAll { forward_host_clock_types!{ @ => Rec } forward_host_clock_methods!{ @ => |c| c.0 } }
impl Io for WAll { forward_host_io_types!{ @ => Rec } forward_host_io_methods!{ @ => |b| b.0 } }
impl Memory for WAll { forward_host_memory_types!{ @ => Rec } forward_host_memory_methods!{ @ => |b| b.0 } }
pub struct WRef<'a> { pub inner: &'a mut Rec }
impl WRef<'_> { fn r(&self) -> &Rec { self.inner } fn m(&mut self) -> &mut Rec { self.inner } }
impl Clock for WRef<'_> { forward_host_clock_types!{ (Limit Timestamp) => Rec } forward_host_clock_methods!{ @ref => |c| c.r() } forward_host_clock_methods!{ @mut => |c| c.m() } }
impl Io for WRef<'_> {
    type Timestamp = u32;
    forward_host_io_types!{ (WrIoBreak RetiBreak) => Rec }
    forward_host_io_methods!{ (read_io write_io is_irq) => |b| b.m() }
    forward_host_io_methods!{ (irq_data, reti) => |b| b.m() }
}
impl Memory for WRef<'_> { forward_host_memory_types!{ (Timestamp) => Rec } forward_host_memory_methods!{ @ref => |b| b.r() } forward_host_memory_methods!{ @mut => |b| b.m() } }
pub struct WList(pub Rec);
impl Clock for WList {
    forward_host_clock_types!{ (Limit, Timestamp) => Rec }
    forward_host_clock_methods!{ (is_past_limit, add_irq, add_no_mreq, add_m1, add_mreq) => |c| c.0 }
    forward_host_clock_methods!{ (add_io add_wait_states as_timestamp) => |c| c.0 }
}
impl Io for WList { forward_host_io_types!{ (Timestamp, WrIoBreak, RetiBreak) => Rec } forward_host_io_methods!{ (write_io, read_io, is_irq, irq_data, reti) => |b| b.0 } }
impl Memory for WList { forward_host_memory_types!{ Timestamp => Rec } forward_host_memory_methods!{ (read_mem, read_mem16, read_debug, read_opcode, write_mem) => |b| b.0 } }

fn forwards<W>(kind: u8, wrap: impl Fn(Rec) -> W, peel: impl Fn(&W) -> Rec)
where W: Clock<Limit = u32, Timestamp = u32> + Io<Timestamp = u32, WrIoBreak = u8, RetiBreak = u16> + Memory<Timestamp = u32> {
    let r0 = Rec::any();
    let (a, b, v, t) = (nd::u16(), nd::u16(), nd::u8(), nd::u32());
    let (n8, n16) = (NonZeroU8::new(v | 1).unwrap(), NonZeroU16::new(b | 1).unwrap());
    let mut n = 0u8;
    macro_rules! same { ($($e:expr),* ; $c:ident) => { $({
        n += 1;
        let mut r = r0;
        let mut w = wrap(r0);
        let x = { let $c = &mut r; $e };
        let y = { let $c = &mut w; $e };
        oblige!(x == y && peel(&w) == r, "OBL a forwarded method is exactly the method of the wrapped host", ("wrapper", kind, "method", n), ("args", a, b, v, t), ("inner", x, r), ("wrapper", y, peel(&w)));
    })* } }
    same!(h.is_past_limit(t), h.add_irq(a), h.add_no_mreq(a, n8), h.add_m1(a), h.add_mreq(a), h.add_io(a), h.add_wait_states(a, n16), h.as_timestamp(),
        h.read_io(a, t), h.write_io(a, v, t), h.is_irq(t), h.irq_data(a, t), h.reti(a, t),
        h.read_mem(a, t), h.read_mem16(a, t), h.read_opcode(a, b, t), h.write_mem(a, v, t), h.read_debug(a) ; h);
}
pub fn forward_all() { forwards(0, WAll, |w| w.0) }
pub fn forward_list() { forwards(1, WList, |w| w.0) }
/// `WRef` borrows, so the inner host is leaked per call natively and nothing is observed through it
pub struct Own(Rec);
impl Clock for Own {
    forward_host_clock_types!{ @ => Rec }
    forward_host_clock_methods!{ @ref => |c| WRefs(&c.0) }
    forward_host_clock_methods!{ @mut => |c| WRef { inner: &mut c.0 } }
}
/// shared part of a borrowing wrapper
pub struct WRefs<'a>(&'a Rec);
impl WRefs<'_> { fn is_past_limit(&self, l: u32) -> bool { self.0.is_past_limit(l) } fn as_timestamp(&self) -> u32 { self.0.as_timestamp() }
    fn read_mem(&self, a: u16, t: u32) -> u8 { self.0.read_mem(a, t) } fn read_mem16(&self, a: u16, t: u32) -> u16 { self.0.read_mem16(a, t) } fn read_debug(&self, a: u16) -> u8 { self.0.read_debug(a) } }
impl Io for Own { forward_host_io_types!{ @ => Rec } forward_host_io_methods!{ @ => |b| WRef { inner: &mut b.0 } } }
impl Memory for Own {
    forward_host_memory_types!{ @ => Rec }
    forward_host_memory_methods!{ @ref => |b| WRefs(&b.0) }
    forward_host_memory_methods!{ @mut => |b| WRef { inner: &mut b.0 } }
}
pub fn forward_ref() { forwards(2, Own, |w| w.0) }
/// the shared methods of the borrowing wrapper itself
pub fn forward_shared() {
    let mut r = Rec::any();
    let c = r;
    let (a, t) = (nd::u16(), nd::u32());
    let w = WRef { inner: &mut r };
    oblige!(w.is_past_limit(t) == c.is_past_limit(t) && w.as_timestamp() == c.as_timestamp() && w.read_mem(a, t) == c.read_mem(a, t) && w.read_mem16(a, t) == c.read_mem16(a, t) && Memory::read_debug(&w, a) == Memory::read_debug(&c, a), "OBL a forwarded method is exactly the method of the wrapped host", ("args", a, t));
}
const _: fn(&Oracle) = |_| ();
