//! Projection of the CPU onto the state vector of the specification, both ways.
use z80emu::z80::Flavour;
use z80emu::*;

pub type V = [i64; 26];

pub fn im_num(im: InterruptMode) -> i64 {
    match im {
        InterruptMode::Mode0 => 0,
        InterruptMode::Mode1 => 1,
        InterruptMode::Mode2 => 2,
    }
}
pub fn im_of(n: i64) -> InterruptMode {
    match n {
        0 => InterruptMode::Mode0,
        1 => InterruptMode::Mode1,
        _ => InterruptMode::Mode2,
    }
}
pub fn px_num(p: Option<Prefix>) -> i64 {
    match p {
        None => 0,
        Some(Prefix::Xdd) => 0xDD,
        Some(Prefix::Yfd) => 0xFD,
    }
}
/// Whether the previous instruction changed the flags, through the public Flavour interface.
pub fn get_q<Q: Flavour + 'static>(f: &Q) -> i64 {
    if Q::tag() == "CMOS" { return 0; }
    if let Some(o) = (f as &dyn std::any::Any).downcast_ref::<Own>() { return (o.begun as i64 % 64) * 2 + o.marked as i64; }
    let mut f = *f;
    f.begin_instruction();
    (f.get_q(0, CpuFlags::from_bits_retain(0x28)) & 0x28 == 0) as i64
}

pub fn vec_any<C: Cpu>(c: &C, mp: u16, q: i64) -> V {
    let g = |r| c.get_reg(r, None) as i64;
    let (i1, i2) = c.get_iffs();
    [c.get_acc() as i64, c.get_flags().bits() as i64, g(Reg8::B), g(Reg8::C), g(Reg8::D), g(Reg8::E), g(Reg8::H), g(Reg8::L),
     c.get_alt_reg16(StkReg16::AF) as i64, c.get_alt_reg16(StkReg16::BC) as i64, c.get_alt_reg16(StkReg16::DE) as i64,
     c.get_alt_reg16(StkReg16::HL) as i64, c.get_index16(Prefix::Xdd) as i64, c.get_index16(Prefix::Yfd) as i64,
     c.get_sp() as i64, c.get_pc() as i64, mp as i64, c.get_i() as i64, c.get_r() as i64, i1 as i64, i2 as i64,
     im_num(c.get_im()), c.is_halt() as i64, c.is_after_ei() as i64, px_num(c.get_prefix()), q]
}
pub fn vec_of<Q: Flavour + 'static>(c: &Z80<Q>) -> V { vec_any(c, c.get_memptr(), get_q(&c.flavour)) }

struct NoHost;
impl Memory for NoHost { type Timestamp = i32; }
impl Io for NoHost { type Timestamp = i32; type WrIoBreak = (); type RetiBreak = (); }

pub fn set_any<C: Cpu>(c: &mut C, v: &V) {
    c.set_reg16(StkReg16::AF, v[8] as u16);
    c.set_reg16(StkReg16::BC, v[9] as u16);
    c.set_reg16(StkReg16::DE, v[10] as u16);
    c.set_reg16(StkReg16::HL, v[11] as u16);
    c.ex_af_af();
    c.exx();
    if v[24] != 0 {
        // a pending prefix is only reachable by executing it
        let mut t = host::TsCounter::<i32>::default();
        let _ = c.execute_instruction(&mut NoHost, &mut t, None::<CpuDebugFn>, v[24] as u8);
    }
    c.set_acc(v[0] as u8);
    c.set_flags(CpuFlags::from_bits_retain(v[1] as u8));
    c.set_reg(Reg8::B, None, v[2] as u8);
    c.set_reg(Reg8::C, None, v[3] as u8);
    c.set_reg(Reg8::D, None, v[4] as u8);
    c.set_reg(Reg8::E, None, v[5] as u8);
    c.set_reg(Reg8::H, None, v[6] as u8);
    c.set_reg(Reg8::L, None, v[7] as u8);
    c.set_index16(Prefix::Xdd, v[12] as u16);
    c.set_index16(Prefix::Yfd, v[13] as u16);
    c.set_sp(v[14] as u16);
    c.set_pc(v[15] as u16);
    c.set_i(v[17] as u8);
    c.set_r(v[18] as u8);
    if v[23] != 0 { c.enable_interrupts(); }
    c.set_iffs(v[19] != 0, v[20] != 0);
    c.set_im(im_of(v[21]));
    if v[22] != 0 { c.halt(); }
}
pub fn make<Q: Flavour>(v: &V) -> Z80<Q> {
    let mut c = Z80::<Q>::default();
    set_any(&mut c, v);
    c.set_memptr(v[16] as u16);
    c.flavour = Q::default();
    for _ in 0..v[25] / 2 { c.flavour.begin_instruction(); }
    if v[25] % 2 != 0 { c.flavour.flags_modified(); }
    c
}

/// A flavour of our own: other answers, and a count of what it is told.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Own { pub begun: u8, pub marked: bool, pub last: bool }
impl Flavour for Own {
    const CONSTANT_OUT_DATA: u8 = 90;
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = true;
    fn tag() -> &'static str { "OWN" }
    fn memptr_mix(msb: u8, lsb: u8) -> (u8, u8) { (msb ^ lsb.rotate_left(3), lsb.rotate_left(1).wrapping_add(msb).wrapping_add(3)) }
    fn begin_instruction(&mut self) {
        self.begun = self.begun.wrapping_add(1);
        self.last = self.marked;
        self.marked = false;
    }
    fn flags_modified(&mut self) { self.marked = true }
    fn get_q(&self, acc: u8, flags: CpuFlags) -> u8 {
        let spread = |v: u8| v ^ v.rotate_left(1) ^ v.rotate_left(2) ^ v.rotate_left(4) ^ v.rotate_left(5);
        spread(acc) ^ spread(flags.bits().wrapping_add(if self.last { 7 } else { 91 }))
    }
    fn cpu_into_any(_: Z80<Self>) -> Z80Any { unimplemented!() }
    fn unwrap_cpu_any(_: Z80Any) -> Z80<Self> { unimplemented!() }
    fn reset(&mut self) { *self = Own { begun: 21, marked: true, last: false } }
}

/// A CPU type under test: statically typed or selected at run time.
pub trait Vcpu: Cpu + Clone {
    fn mk(v: &V, fl: i64) -> Self;
    fn vec(&self) -> V;
    fn mp_set(&mut self, v: u16);
    fn norm(&mut self);
    fn equals(&self, other: &Self) -> bool;
    /// The flavour it holds.
    fn fl(&self) -> i64;
}
pub fn fl_of_tag(t: &str) -> i64 { match t { "NMOS" => 0, "CMOS" => 1, "BM1" => 2, _ => 9 } }
impl<Q: Flavour + 'static> Vcpu for Z80<Q> {
    fn mk(v: &V, _fl: i64) -> Self { make::<Q>(v) }
    fn vec(&self) -> V { vec_of(self) }
    fn mp_set(&mut self, v: u16) { self.set_memptr(v) }
    fn norm(&mut self) { self.normalize_r() }
    fn equals(&self, other: &Self) -> bool { self == other }
    fn fl(&self) -> i64 { fl_of_tag(Q::tag()) }
}
impl Vcpu for Z80Any {
    fn mk(v: &V, fl: i64) -> Self {
        // every register goes through the accessors of the run-time type
        let mut c = match fl { 0 => Z80Any::new_nmos(), 1 => Z80Any::new_cmos(), _ => Z80Any::new_bm1() };
        set_any(&mut c, v);
        c.set_memptr(v[16] as u16);
        match &mut c {
            Z80Any::NMOS(c) => { c.flavour = Default::default(); if v[25] != 0 { c.flavour.flags_modified() } }
            Z80Any::CMOS(c) => { c.flavour = Default::default(); if v[25] != 0 { c.flavour.flags_modified() } }
            Z80Any::BM1(c) => { c.flavour = Default::default(); if v[25] != 0 { c.flavour.flags_modified() } }
        }
        c
    }
    fn vec(&self) -> V {
        let q = match self { Z80Any::NMOS(c) => get_q(&c.flavour), Z80Any::CMOS(_) => 0, Z80Any::BM1(c) => get_q(&c.flavour) };
        vec_any(self, self.get_memptr(), q)
    }
    fn mp_set(&mut self, v: u16) { self.set_memptr(v) }
    fn norm(&mut self) { self.normalize_r() }
    fn equals(&self, other: &Self) -> bool { self == other }
    fn fl(&self) -> i64 { fl_of_tag(self.tag()) }
}
