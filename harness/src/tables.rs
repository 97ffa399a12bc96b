//! Complete tables of names, codes and helpers, for the specification to compare.
use crate::cpuvec::*;
use crate::rng::Rng;
use crate::steps::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::opconsts::*;
use z80emu::*;

fn q(s: &str) -> String { format!("{:?}", s) }
macro_rules! names { ($x:expr) => { { let x = $x; let n: &str = x.into(); format!("[{},{},{},{}]", q(&x.to_string()), q(n), x.to_code(), u8::from(x)) } } }
fn none() -> String { "[]".into() }
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }
fn bits(v: &[bool]) -> String { ints(&v.iter().map(|b| *b as i64).collect::<Vec<_>>()) }

fn code(c: u8) -> String {
    let r8 = Reg8::try_from(c).map(|x| names!(x)).unwrap_or_else(|_| none());
    let px = Prefix::try_from(c).map(|x| format!("[{},{},{}]", q(&x.to_string()), x.to_code(), u8::from(x))).unwrap_or_else(|_| none());
    let im = InterruptMode::try_from(c).map(|x| format!("[{},{}]", x.to_mode_number(), u8::from(x))).unwrap_or_else(|_| none());
    let m = [c & RET_CC_OPMASK == RET_CC_OPBASE, c & CALL_CC_OPMASK == CALL_CC_OPBASE, c & JP_CC_OPMASK == JP_CC_OPBASE, c & JR_CC_OPMASK == JR_CC_OPBASE,
        c & RST_OPMASK == RST_OPBASE, c & RETN_OP2_MASK == RETN_OP2_BASE, c == ED_PREFIX, c == DD_PREFIX, c == FD_PREFIX, c == NOP_OPCODE, c == HALT_OPCODE,
        c == DI_OPCODE, c == EI_OPCODE, c == RET_OPCODE, (ED_PREFIX, c) == RETI_OPCODE_T2, (ED_PREFIX, c) == RETN_OPCODE_T2, c == CALL_OPCODE, c == JP_OPCODE,
        c == JR_OPCODE, c == DJNZ_OPCODE, c == RST_00H_OPCODE, c == RST_08H_OPCODE, c == RST_10H_OPCODE, c == RST_18H_OPCODE, c == RST_20H_OPCODE,
        c == RST_28H_OPCODE, c == RST_30H_OPCODE, c == RST_38H_OPCODE];
    let cc = Condition::from_code(c);
    let built = [RET_CC_OPBASE | cc.to_code(), CALL_CC_OPBASE | cc.to_code(), JP_CC_OPBASE | cc.to_code(),
        JR_CC_OPBASE | Condition::from_jr_subset(c).to_code(), RST_OPBASE | (c & 0x38)].map(|x| x as i64);
    format!("[\"code\",{},{},{},{},{},{},{},{},{},{},{},{},{},{}]", c, r8, names!(StkReg16::from_code(c)), names!(StkReg16::from(c)), names!(Reg16::from_code(c)),
        names!(Reg16::from(c)), names!(Condition::from_code(c)), names!(Condition::from(c)), names!(Condition::from_jr_subset(c)), px, im, bits(&m), ints(&built), NMI_RESTART)
}
fn flags(c: u8) -> String {
    let f = CpuFlags::from_bits_retain(c);
    let mut z = f;
    z.reset();
    let conds: Vec<bool> = (0..8).map(|i| Condition::from_code(i * 8).is_satisfied(f)).collect();
    format!("[\"flags\",{},{},{},{}]", c, bits(&[f.sf(), f.zf(), f.hf(), f.pvf(), f.nf(), f.cf()]), bits(&conds),
        ints(&[f.bits(), z.bits(), CpuFlags::mask_sign(c).bits(), CpuFlags::mask_zero(c).bits(), CpuFlags::parity(c).bits(), CpuFlags::mask_xy(c).bits(),
            CpuFlags::mask_sxy(c).bits()].map(|b| b as i64)))
}
fn bools() -> Vec<String> {
    (0..8).map(|i: i64| {
        let (a, b, c) = (i & 4 != 0, i & 2 != 0, i & 1 != 0);
        format!("[\"bools\",{},{}]", bits(&[a, b, c]), ints(&[CpuFlags::mask_cvz(a, b, c).bits(), CpuFlags::mask_carry(a).bits(), CpuFlags::mask_nf(a).bits(),
            CpuFlags::mask_hf(a).bits(), CpuFlags::mask_hcf(a).bits(), CpuFlags::mask_pvf(a).bits()].map(|b| b as i64)))
    }).collect()
}
fn consts() -> String {
    format!("[\"const\",{}]", ints(&[CpuFlags::C, CpuFlags::N, CpuFlags::PV, CpuFlags::X, CpuFlags::H, CpuFlags::Y, CpuFlags::Z, CpuFlags::S,
        CpuFlags::P, CpuFlags::V, CpuFlags::XY, CpuFlags::HMASK, CpuFlags::all(), CpuFlags::default(), CpuFlags::empty()].map(|f| f.bits() as i64)))
}
fn parse(s: &str) -> String {
    let r: Result<Condition, ()> = s.parse();
    format!("[\"parse\",{},{}]", q(s), r.map(|c| c.to_code() as i64).unwrap_or(-1))
}
fn fmt(kind: &str, p: &[i64], a: CpuDebugArg) -> String {
    let one = |a: &CpuDebugArg| arr(&[q(&format!("{}", a)), q(&format!("{:x}", a)), q(&format!("{:X}", a)), q(&format!("{:#x}", a)), q(&format!("{:#X}", a))]);
    let two = |a: &CpuDebugArgs| arr(&[q(&format!("{}", a)), q(&format!("{:x}", a)), q(&format!("{:X}", a)), q(&format!("{:#x}", a)), q(&format!("{:#X}", a))]);
    // the same through the argument lists, alone, in a pair and in an extended bit operation
    let part = match a {
        CpuDebugArg::Addr(x) => arr(&[q(&format!("{}", x)), q(&format!("{:x}", x)), q(&format!("{:X}", x)), q(&format!("{:#x}", x)), q(&format!("{:#X}", x))]),
        CpuDebugArg::Port(x) => arr(&[q(&format!("{}", x)), q(&format!("{:x}", x)), q(&format!("{:X}", x)), q(&format!("{:#x}", x)), q(&format!("{:#X}", x))]),
        _ => one(&a),
    };
    format!("[\"fmt\",{},{},{},{},{},{},{}]", q(kind), ints(p), one(&a), part, two(&CpuDebugArgs::Single(a)), two(&CpuDebugArgs::Double(CpuDebugArg::Reg8(None, Reg8::A), a)),
        two(&CpuDebugArgs::BitOpExt(5, a, Reg8::E)))
}
fn formats(r: &mut Rng, v: &mut Vec<String>) {
    let pxs = [(0i64, None), (0xDD, Some(Prefix::Xdd)), (0xFD, Some(Prefix::Yfd))];
    for n in 0..=255u8 {
        v.push(fmt("n", &[n as i64], CpuDebugArg::Imm8(n)));
        v.push(fmt("p", &[n as i64], CpuDebugArg::Port(CpuDebugPort::ImmPort(n))));
        for (p, px) in &pxs[1..] { v.push(fmt("i", &[*p, n as i64], CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(px.unwrap(), Some(n as i8))))) }
    }
    for _ in 0..400 {
        let n = r.word();
        v.push(fmt("nn", &[n as i64], CpuDebugArg::Imm16(n)));
        v.push(fmt("a", &[n as i64], CpuDebugArg::Addr(CpuDebugAddr::ImmAddr(n))));
    }
    for n in 0..8i64 {
        v.push(fmt("bit", &[n], CpuDebugArg::Bit(n as u32)));
        v.push(fmt("cond", &[n], CpuDebugArg::Cond(Condition::from_code(n as u8 * 8))));
        for (p, px) in &pxs { if let Ok(x) = Reg8::try_from(n as u8) { v.push(fmt("r8", &[n, *p], CpuDebugArg::Reg8(*px, x))) } }
    }
    for n in 0..4i64 {
        for (p, px) in &pxs { v.push(fmt("r16", &[n, *p], CpuDebugArg::Reg16(*px, Reg16::from_code(n as u8 * 16)))) }
        v.push(fmt("stk", &[n], CpuDebugArg::Stk16(StkReg16::from_code(n as u8 * 16))));
        v.push(fmt("ra", &[n], CpuDebugArg::Addr(CpuDebugAddr::RegAddr(Reg16::from_code(n as u8 * 16)))));
        if n < 3 { v.push(fmt("im", &[n], CpuDebugArg::IntMode(im_of(n)))) }
    }
    for (p, px) in &pxs[1..] { v.push(fmt("ip", &[*p], CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(px.unwrap(), None)))) }
    v.push(fmt("I", &[], CpuDebugArg::I));
    v.push(fmt("R", &[], CpuDebugArg::R));
    v.push(fmt("C", &[], CpuDebugArg::Port(CpuDebugPort::RegPort)));
    let af = CpuDebugArgs::Double(CpuDebugArg::Stk16(StkReg16::AF), CpuDebugArg::Stk16(StkReg16::AF));
    let n = CpuDebugArgs::None;
    v.push(format!("[\"af\",{}]", arr(&[q(&format!("{}", af)), q(&format!("{:x}", af)), q(&format!("{:X}", af)), q(&format!("{:#x}", af)), q(&format!("{:#X}", af)),
        q(&format!("[{}{:x}{:X}{:#x}{:#X}]", n, n, n, n, n)), q(&format!("{:9}|", af)), q(&format!("{:<9x}|", af)), q(&format!("{:>9X}|", af)), q(&format!("{:^10}|", af))])));
}
fn pair(r: &mut Rng) -> String {
    let (v, w, b) = (r.word(), r.word(), r.byte());
    let (hi, lo) = ((v >> 8) as u8, v as u8);
    let p = RegisterPair::from(v);
    let mut o: Vec<i64> = Vec::new();
    for x in [p, RegisterPair::from(v as i16), RegisterPair::from([lo, hi]), RegisterPair::from((hi, lo))] { o.push(x.get16() as i64) }
    let (h, l) = p.get();
    o.extend([p.get8hi() as i64, p.get8lo() as i64, h as i64, l as i64]);
    macro_rules! m { ($x:ident, $e:expr) => { { let mut $x = p; $e; o.push($x.get16() as i64) } } }
    m!(x, x.set16(w));
    m!(x, x.set8hi(b));
    m!(x, x.set8lo(b));
    m!(x, x.set(b, hi));
    m!(x, x.inc16());
    m!(x, x.add16(w));
    m!(x, x.dec16());
    let mut z = false;
    m!(x, z = x.dec16_is_zero());
    m!(x, x.op16(|n| ((n as u8).wrapping_add(b), (n >> 8) as u8)));
    m!(x, x.op8hi(|n| n.wrapping_add(b)));
    m!(x, x.op8lo(|n| n.wrapping_add(b)));
    o.push(z as i64);
    o.push(RegisterPair::default().get16() as i64);
    o.push((p == RegisterPair::from(w)) as i64);
    format!("[\"pair\",{},{},{},{}]", v, w, b, ints(&o))
}
fn breaks() -> String {
    type B = BreakCause<u8, u8>;
    let t = |b: B| { let r: &str = (&b).into(); let s = arr(&[q(&b.to_string()), q(r)]); let v: &str = b.into(); format!("[{},{}]", &s[1..s.len() - 1], q(v)) };
    format!("[\"break\",{}]", arr(&[t(B::Halt), t(B::WriteIo(1)), t(B::Reti(2))]))
}

pub fn run(args: &crate::Args) {
    let mut r = Rng::new(args.num("seed", 1).wrapping_mul(0x71) ^ 0x5441_424C);
    let mut v: Vec<String> = Vec::new();
    let n = args.num("n", 2000);
    let res = catch_unwind(AssertUnwindSafe(|| {
        for c in 0..=255u8 { v.push(code(c)); v.push(flags(c)) }
        v.extend(bools());
        v.push(consts());
        v.push(breaks());
        v.push(format!("[\"im\",{}]", InterruptMode::default().to_mode_number()));
        let letters: Vec<char> = ('A'..='Z').collect();
        let mut words = vec![String::new()];
        for a in &letters { words.push(a.to_string()); for b in &letters { words.push(format!("{}{}", a, b)) } }
        for w in ["nz", "z", "nc", "c", "po", "pe", "p", "m", " Z", "Z ", "NZ,", "Nz", "nZ", "NZZ", "PEE", "PO ", "\tC", "MM", "0", "N Z"] { words.push(w.to_string()) }
        for w in &words { v.push(parse(w)) }
        formats(&mut r, &mut v);
        for _ in 0..n { v.push(pair(&mut r)) }
    }));
    if res.is_err() { v.push("[\"panic\"]".into()) }
    let mut w = crate::Shards::new(args);
    for s in v { writeln!(w.next(), "{}", s).unwrap() }
}
