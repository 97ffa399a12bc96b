//! Exhaustive tables of the arithmetic: real instructions executed on every operand combination.
use crate::cpuvec::get_q;
use crate::rng::Rng;
use crate::Args;
use core::num::{NonZeroU16, NonZeroU8};
use std::io::Write;
use z80emu::z80::{BM1, CMOS, NMOS};
use z80emu::*;

/// Minimal host: 64K of memory, constant port input.
pub struct Mini { pub mem: Vec<u8>, pub port: u8, pub irq: bool }
pub struct T0;
impl Memory for Mini {
    type Timestamp = i32;
    fn read_debug(&self, a: u16) -> u8 { self.mem[a as usize] }
    fn write_mem(&mut self, a: u16, v: u8, _: i32) { self.mem[a as usize] = v }
}
impl Io for Mini {
    type Timestamp = i32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn is_irq(&mut self, _: i32) -> bool { self.irq }
    fn read_io(&mut self, _: u16, _: i32) -> (u8, Option<NonZeroU16>) { (self.port, None) }
}
impl Clock for T0 {
    type Limit = i32;
    type Timestamp = i32;
    fn is_past_limit(&self, _: i32) -> bool { false }
    fn add_irq(&mut self, _: u16) -> i32 { 0 }
    fn add_m1(&mut self, _: u16) -> i32 { 0 }
    fn add_mreq(&mut self, _: u16) -> i32 { 0 }
    fn add_io(&mut self, _: u16) -> i32 { 0 }
    fn add_no_mreq(&mut self, _: u16, _: NonZeroU8) {}
    fn add_wait_states(&mut self, _: u16, _: NonZeroU16) {}
    fn as_timestamp(&self) -> i32 { 0 }
}
pub type C = Z80<NMOS>;
pub fn run<Q: z80emu::z80::Flavour>(c: &mut Z80<Q>, m: &mut Mini, bytes: &[u8]) {
    c.set_pc(0x4000);
    let n = bytes.iter().position(|b| *b != 0xDD && *b != 0xFD).unwrap() + 1;
    m.mem[0x4000..0x4000 + bytes.len()].copy_from_slice(bytes);
    for _ in 0..n { let _ = c.execute_next(m, &mut T0, None::<CpuDebugFn>); }
}
fn fl(b: u32) -> CpuFlags { CpuFlags::from_bits_retain(b as u8) }
fn af<Q: z80emu::z80::Flavour>(c: &Z80<Q>) -> u32 { (c.get_acc() as u32) << 8 | c.get_flags().bits() as u32 }

struct Out { w: crate::Shards }
impl Out {
    fn line(&mut self, id: u32, a: u32, res: &[u32]) {
        let f = self.w.next();
        write!(f, "[{},{},[", id, a).unwrap();
        for (i, r) in res.iter().enumerate() {
            if i > 0 { write!(f, ",").unwrap() }
            write!(f, "{}", r).unwrap();
        }
        writeln!(f, "]]").unwrap();
    }
}

pub fn tables(args: &Args) {
    let mut o = Out { w: crate::Shards::new(args) };
    let mut m = Mini { mem: vec![0; 65536], port: 0, irq: false };
    let mut c = C::default();
    let mut r = Vec::with_capacity(65536);
    let set = args.get("set", "8");
    if set.contains('8') {
        // 0..7: ALU A,n: a -> [b][cy]
        for op in 0..8u32 { for a in 0..256u32 {
            r.clear();
            for b in 0..256u32 { for cy in 0..2 {
                c.set_acc(a as u8); c.set_flags(fl(cy));
                run(&mut c, &mut m, &[0xC6 | (op << 3) as u8, b as u8]);
                r.push(af(&c));
            } }
            o.line(op, a, &r);
        } }
        // 10: INC B, 11: DEC B, 20..27: rotates of B, 30..37 BIT n,B, 40.. RES, 50.. SET : v -> [f]; result in B
        let mut one = |id: u32, code: &[u8]| for v in 0..256u32 {
            r.clear();
            for f in 0..256u32 {
                c.set_reg(Reg8::B, None, v as u8); c.set_flags(fl(f));
                run(&mut c, &mut m, code);
                r.push((c.get_reg(Reg8::B, None) as u32) << 8 | c.get_flags().bits() as u32);
            }
            o.line(id, v, &r);
        };
        one(10, &[0x04]);
        one(11, &[0x05]);
        for y in 0..8 {
            one(20 + y, &[0xCB, (y << 3) as u8]);
            one(30 + y, &[0xCB, 0x40 | (y << 3) as u8]);
            one(40 + y, &[0xCB, 0x80 | (y << 3) as u8]);
            one(50 + y, &[0xCB, 0xC0 | (y << 3) as u8]);
        }
        // 60..63 RLCA.. 64 DAA 65 CPL 66 NEG, 67 SCF, 68 CCF (flags not changed by previous): a -> [f]
        for (id, code) in [(60, &[0x07u8][..]), (61, &[0x0F]), (62, &[0x17]), (63, &[0x1F]), (64, &[0x27]), (65, &[0x2F]), (66, &[0xED, 0x44]),
                           (67, &[0x37]), (68, &[0x3F])] {
            for a in 0..256u32 {
                r.clear();
                for f in 0..256u32 {
                    run(&mut c, &mut m, &[0]);
                    c.set_acc(a as u8); c.set_flags(fl(f));
                    run(&mut c, &mut m, code);
                    r.push(af(&c));
                }
                o.line(id, a, &r);
            }
        }
        // 70 RLD 71 RRD: a -> [m][cy] -> a, m, f
        for (id, op) in [(70, 0x6F), (71, 0x67)] { for a in 0..256u32 {
            r.clear();
            for v in 0..256u32 { for cy in 0..2 {
                c.set_acc(a as u8); c.set_flags(fl(cy)); c.set_reg16(StkReg16::HL, 0x8000); m.mem[0x8000] = v as u8;
                run(&mut c, &mut m, &[0xED, op]);
                r.push((m.mem[0x8000] as u32) << 16 | af(&c));
            } }
            o.line(id, a, &r);
        } }
        // 80..87 BIT n,(IX+d): v -> high address byte [0..255]
        for y in 0..8 { for v in 0..256u32 {
            r.clear();
            for hi in 0..256u32 {
                c.set_index16(Prefix::Xdd, (hi as u16) << 8 | 0x80); c.set_flags(fl(0));
                // the byte is read from a page that is not the code's own
                let ad = hi as usize * 256 + 0x80;
                m.mem[ad] = v as u8;
                run(&mut c, &mut m, &[0xDD, 0xCB, 0, 0x46 | (y << 3) as u8]);
                r.push(c.get_flags().bits() as u32);
            }
            o.line(80 + y as u32, v, &r);
        } }
    }
    if set.contains('b') {
        // 90/91 LDI/LDD flags: a -> [v][bc=1?]; 92/93 CPI/CPD
        for (id, op) in [(90, 0xA0u8), (91, 0xA8), (92, 0xA1), (93, 0xA9), (94, 0xB1), (95, 0xB9)] { for a in 0..256u32 {
            r.clear();
            for v in 0..256u32 { for bc in [1u16, 2] { 
                let f = (a ^ v) & 1 | (v & 2) << 6 | (v & 4) << 4;
                c.set_acc(a as u8); c.set_flags(fl(f)); c.set_reg16(StkReg16::HL, 0x8000); c.set_reg16(StkReg16::DE, 0x9000);
                c.set_reg16(StkReg16::BC, bc); m.mem[0x8000] = v as u8;
                run(&mut c, &mut m, &[0xED, op]);
                r.push(af(&c) | ((c.get_pc() != 0x4002) as u32) << 16);
            } }
            o.line(id, a, &r);
        } }
        // 96 INI 97 IND 98 OUTI 99 OUTD: v -> [k 0..255][b in 5 values] flags; k is C or L after
        for (id, op) in [(96, 0xA2u8), (97, 0xAA), (98, 0xA3), (99, 0xAB)] { for v in 0..256u32 {
            r.clear();
            for k in 0..256u32 { for b in [0u8, 1, 2, 0x81, 0xA9] {
                c.set_flags(fl(v ^ k));
                if id < 98 { c.set_reg16(StkReg16::BC, (b as u16) << 8 | k as u16); c.set_reg16(StkReg16::HL, 0x8000); m.port = v as u8; }
                else { c.set_reg16(StkReg16::BC, (b as u16) << 8 | 7); c.set_reg16(StkReg16::HL, 0x8000 | k as u16); m.mem[0x8000 | k as usize] = v as u8; }
                run(&mut c, &mut m, &[0xED, op]);
                r.push((c.get_reg(Reg8::B, None) as u32) << 8 | c.get_flags().bits() as u32);
            } }
            o.line(id, v, &r);
        } }
        // 100 IN B,(C): v -> [f]
        for v in 0..256u32 {
            r.clear();
            for f in 0..256u32 {
                c.set_flags(fl(f)); m.port = v as u8;
                run(&mut c, &mut m, &[0xED, 0x40]);
                r.push((c.get_reg(Reg8::B, None) as u32) << 8 | c.get_flags().bits() as u32);
            }
            o.line(100, v, &r);
        }
    }
    if set.contains('q') {
        // SCF/CCF with the previous instruction having (1) or not (0) changed the flags, per flavour
        // 110 + fl*4 + op*2 + lq : a -> [f]
        macro_rules! q { ($t:ty, $n:expr) => {{
            let mut c = Z80::<$t>::default();
            for (o2, op) in [(0u32, 0x37u8), (1, 0x3F)] { for lq in 0..2u32 { for a in 0..256u32 {
                r.clear();
                for f in 0..256u32 {
                    c.set_reg16(StkReg16::AF, (a << 8 | f) as u16);
                    // POP AF leaves flags "not changed"; an ALU operation marks them changed
                    run(&mut c, &mut m, &[if lq == 0 { 0 } else { 0xB7 }]);
                    c.set_acc(a as u8); c.set_flags(fl(f));
                    assert_eq!(get_q(&c.flavour), if $n == 1 { 0 } else { lq as i64 });
                    run(&mut c, &mut m, &[op]);
                    r.push(af(&c));
                }
                o.line(110 + $n * 4 + o2 * 2 + lq, a, &r);
            } } }
        }} }
        q!(NMOS, 0);
        q!(CMOS, 1);
        q!(BM1, 2);
        // 130 + fl*2 + reg(I/R): LD A,I / LD A,R: v -> [iff2][irq][iff1][f in 0,1,0xFF] flags
        macro_rules! l { ($t:ty, $n:expr) => {{
            let mut c = Z80::<$t>::default();
            for reg in 0..2u32 { for v in 0..256u32 {
                r.clear();
                for i2 in 0..2 { for irq in 0..2 { for i1 in 0..2 { for f in [0u32, 1, 0xFF] {
                    c.set_i(v as u8);
                    c.set_r((v & 0x80 | (v.wrapping_sub(2)) & 0x7F) as u8);
                    c.set_flags(fl(f));
                    c.set_iffs(i1 == 1, i2 == 1);
                    // execute directly so that the pending interrupt is not taken first
                    m.irq = irq == 1;
                    m.mem[0x4000] = if reg == 0 { 0x57 } else { 0x5F };
                    c.set_pc(0x4000);
                    if reg == 1 { c.set_r((v & 0x80 | (v.wrapping_sub(1)) & 0x7F) as u8); }
                    let _ = c.execute_instruction(&mut m, &mut T0, None::<CpuDebugFn>, 0xED);
                    m.irq = false;
                    r.push(af(&c));
                } } } }
                o.line(130 + $n * 2 + reg, v, &r);
            } }
        }} }
        l!(NMOS, 0);
        l!(CMOS, 1);
        l!(BM1, 2);
    }
    if set.contains('w') {
        // 16-bit: 140 ADD HL 141 ADC HL 142 SBC HL, 143 ADD IX 144 ADD IY: pairs [x,y,f,res,flags]
        let n = args.num("n", 60000);
        let mut rg = Rng::new(args.num("seed", 1) ^ 0x16b);
        let edge: Vec<u16> = [0u16, 1, 2, 0xF, 0x10, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x7FF, 0x800, 0xFFE, 0xFFF, 0x1000, 0x1001, 0x2800, 0x4000, 0x7FFE, 0x7FFF,
            0x8000, 0x8001, 0xD7FF, 0xEFFF, 0xF000, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF].to_vec();
        let mut pairs: Vec<(u16, u16)> = Vec::new();
        for x in &edge { for y in &edge { pairs.push((*x, *y)) } }
        for _ in 0..n { pairs.push(((rg.next() >> 16) as u16, (rg.next() >> 16) as u16)) }
        // sums that land close to every multiple of 0x800
        for i in 0..n / 4 { let x = (rg.next() >> 16) as u16; let t = ((i as u16) << 11).wrapping_add(rg.below(5) as u16).wrapping_sub(2);
            pairs.push((x, t.wrapping_sub(x))); pairs.push((x, x.wrapping_sub(t))) }
        for (id, code) in [(140u32, &[0x09u8][..]), (141, &[0xED, 0x4A]), (142, &[0xED, 0x42]), (143, &[0xDD, 0x09]), (144, &[0xFD, 0x09])] {
            for ch in pairs.chunks(256) {
                r.clear();
                for (x, y) in ch { for cy in 0..2u32 {
                    let f = cy | (rg.next() >> 20) as u32 & 0xFE;
                    c.set_reg16(StkReg16::HL, *x);
                    c.set_index16(Prefix::Xdd, *x);
                    c.set_index16(Prefix::Yfd, *x);
                    c.set_reg16(StkReg16::BC, *y);
                    c.set_flags(fl(f));
                    run(&mut c, &mut m, code);
                    let res = match id { 143 => c.get_index16(Prefix::Xdd), 144 => c.get_index16(Prefix::Yfd), _ => c.get_reg16(StkReg16::HL) };
                    r.extend([*x as u32, *y as u32, f, res as u32, c.get_flags().bits() as u32]);
                } }
                o.line(id, 0, &r);
            }
        }
        // 150 INC BC, 151 DEC BC: hi -> [lo]
        for (id, op) in [(150u32, 3u8), (151, 11)] { for hi in 0..256u32 {
            r.clear();
            for lo in 0..256u32 {
                c.set_reg16(StkReg16::BC, (hi << 8 | lo) as u16);
                c.set_flags(fl(lo));
                run(&mut c, &mut m, &[op]);
                r.push(c.get_reg16(StkReg16::BC) as u32 | ((c.get_flags().bits() as u32 != lo) as u32) << 16);
            }
            o.line(id, hi, &r);
        } }
    }
}

/// Every addressing form of an operation must agree with the register/immediate form that `tables`
/// shows to the specification.  Prints the disagreements.
pub fn forms(_args: &Args) {
    let mut m = Mini { mem: vec![0; 65536], port: 0, irq: false };
    let mut c = C::default();
    let mut bad = 0;
    let mut n = 0u64;
    const R: [Reg8; 8] = [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::L, Reg8::A];
    let mut forms: Vec<(String, Vec<u8>, usize)> = Vec::new(); // name, code, operand location 0..7 reg, 8 (HL), 9 (IX+d), 10 (IY+d), 11 IXh 12 IXl 13 IYh 14 IYl
    let loc = |z: usize| if z == 6 { 8 } else { z };
    // op tables: (reference code on B or immediate, make form)
    for op in 0..8u8 {
        for z in 0..8usize { forms.push((format!("alu{}", op), vec![0x80 | op << 3 | z as u8], loc(z))); }
        for (p, l) in [(0xDDu8, 0usize), (0xFD, 1)] {
            forms.push((format!("alu{}", op), vec![p, 0x84 | op << 3], 11 + 2 * l));
            forms.push((format!("alu{}", op), vec![p, 0x85 | op << 3], 12 + 2 * l));
            forms.push((format!("alu{}", op), vec![p, 0x86 | op << 3, 5], 9 + l));
        }
    }
    for (name, base) in [("inc", 4u8), ("dec", 5)] {
        for z in 0..8usize { forms.push((name.into(), vec![base | (z as u8) << 3], loc(z))); }
        for (p, l) in [(0xDDu8, 0usize), (0xFD, 1)] {
            forms.push((name.into(), vec![p, base | 4 << 3], 11 + 2 * l));
            forms.push((name.into(), vec![p, base | 5 << 3], 12 + 2 * l));
            forms.push((name.into(), vec![p, base | 6 << 3, 5], 9 + l));
        }
    }
    for x in [0u8, 2, 3] { for y in 0..8u8 {
        let name = format!("cb{}.{}", x, y);
        for z in 0..8usize { forms.push((name.clone(), vec![0xCB, x << 6 | y << 3 | z as u8], loc(z))); }
        for (p, l) in [(0xDDu8, 0usize), (0xFD, 1)] { for z in 0..8u8 { forms.push((name.clone(), vec![p, 0xCB, 5, x << 6 | y << 3 | z], 9 + l)); } }
    } }
    for y in 0..8u8 { for z in [0usize, 1, 2, 3, 4, 5, 7] { forms.push((format!("cb1.{}", y), vec![0xCB, 0x40 | y << 3 | z as u8], z)); } }
    for (name, code, l) in &forms {
        let reference: Vec<u8> = if let Some(o) = name.strip_prefix("alu") { vec![0xC6 | o.parse::<u8>().unwrap() << 3] }
            else if name == "inc" { vec![4] } else if name == "dec" { vec![5] }
            else { let (x, y) = name[2..].split_once('.').unwrap(); vec![0xCB, x.parse::<u8>().unwrap() << 6 | y.parse::<u8>().unwrap() << 3] };
        let alu = name.starts_with("alu");
        for v in 0..256u32 { for w in 0..(if alu { 512 } else { 256u32 }) {
            // ALU: v operand, w>>1 accumulator, w&1 carry (form on A itself: accumulator = operand); others: w flags
            let (a, f) = if alu { (if *l == 7 { v } else { w >> 1 }, w & 1) } else { (0x5A, w) };
            if alu && *l == 7 && w > 1 { continue }
            c.set_acc(a as u8); c.set_flags(fl(f));
            let exp = if alu { run(&mut c, &mut m, &[reference[0], v as u8]); (af(&c), v) }
                else { c.set_reg(Reg8::B, None, v as u8); run(&mut c, &mut m, &reference); (c.get_flags().bits() as u32, c.get_reg(Reg8::B, None) as u32) };
            c.set_acc(a as u8); c.set_flags(fl(f));
            c.set_reg16(StkReg16::HL, 0x8000);
            c.set_index16(Prefix::Xdd, 0x8FFB);
            c.set_index16(Prefix::Yfd, 0x9FFB);
            match *l {
                8 => m.mem[0x8000] = v as u8,
                9 => m.mem[0x9000] = v as u8,
                10 => m.mem[0xA000] = v as u8,
                11 => c.set_reg(Reg8::H, Some(Prefix::Xdd), v as u8),
                12 => c.set_reg(Reg8::L, Some(Prefix::Xdd), v as u8),
                13 => c.set_reg(Reg8::H, Some(Prefix::Yfd), v as u8),
                14 => c.set_reg(Reg8::L, Some(Prefix::Yfd), v as u8),
                z => c.set_reg(R[z], None, v as u8),
            }
            run(&mut c, &mut m, code);
            let opv = match *l {
                8 => m.mem[0x8000], 9 => m.mem[0x9000], 10 => m.mem[0xA000],
                11 => c.get_reg(Reg8::H, Some(Prefix::Xdd)), 12 => c.get_reg(Reg8::L, Some(Prefix::Xdd)),
                13 => c.get_reg(Reg8::H, Some(Prefix::Yfd)), 14 => c.get_reg(Reg8::L, Some(Prefix::Yfd)),
                z => c.get_reg(R[z], None),
            } as u32;
            let got = if alu { (af(&c), if *l == 7 { v } else { opv }) } else { (c.get_flags().bits() as u32, opv) };
            n += 1;
            if got != exp {
                bad += 1;
                if bad <= 5 { println!("BAD {} code {:02X?} operand {} w {}: register form gives {:X?}, this form {:X?}", name, code, v, w, exp, got); }
            }
            if code[0] == 0xDD || code[0] == 0xFD {
                // DDCB forms also copy the result into a register
                if code.len() == 4 && code[3] & 7 != 6 && code[3] >> 6 != 1 {
                    let z = (code[3] & 7) as usize;
                    if c.get_reg(R[z], None) as u32 != opv { bad += 1; if bad <= 5 { println!("BAD copy of {:02X?} operand {}", code, v); } }
                }
            }
        } }
    }
    println!("FORMS {} comparisons {} bad {}", forms.len(), n, bad);
}
