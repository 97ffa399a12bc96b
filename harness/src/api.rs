//! Recorded histories of accessor calls, conversions and register instructions on one live CPU.
use crate::cpuvec::*;
use crate::host::*;
use crate::rng::Rng;
use crate::steps::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::z80::{BM1, CMOS, NMOS};
use z80emu::*;

#[derive(Clone)]
enum Dyn { N(Z80<NMOS>), C(Z80<CMOS>), B(Z80<BM1>), Any(Z80Any) }
macro_rules! on { ($d:expr, $c:ident => $e:expr) => { match $d { Dyn::N($c) => $e, Dyn::C($c) => $e, Dyn::B($c) => $e, Dyn::Any($c) => $e } } }

const RP: [StkReg16; 4] = [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF];
fn reg8(n: i64) -> Reg8 { [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::A, Reg8::A][n as usize] }
fn px(n: i64) -> Prefix { if n == 0xDD { Prefix::Xdd } else { Prefix::Yfd } }
fn pxo(n: i64) -> Option<Prefix> { if n == 0 { None } else { Some(px(n)) } }

/// Everything else the accessors show, derived from the state in the specification.
fn observe<C: Vcpu>(c: &C) -> (V, Vec<i64>) {
    let mut o = vec![c.get_ir() as i64, c.is_irq_allowed() as i64, c.is_nmi_allowed() as i64, c.is_after_prefix() as i64];
    for rp in RP {
        o.push(c.get_reg16(rp) as i64);
        let (h, l) = c.get_reg2(rp);
        o.push((h as i64) * 256 + l as i64);
        let (h, l) = c.get_alt_reg2(rp);
        o.push((h as i64) * 256 + l as i64);
    }
    for p in [Prefix::Xdd, Prefix::Yfd] {
        let (h, l) = c.get_index2(p);
        o.push((h as i64) * 256 + l as i64);
        for n in [Reg8::H, Reg8::L, Reg8::B, Reg8::A] { o.push(c.get_reg(n, Some(p)) as i64) }
    }
    o.push(c.get_reg(Reg8::A, None) as i64);
    (c.vec(), o)
}

fn convert(d: Dyn, fl: i64, route: i64) -> Dyn {
    macro_rules! to { ($F:ty, $c:ident) => { match route % 3 {
        0 => $c.into_flavour::<$F>(),
        1 => Z80::<$F>::from_flavour($c),
        _ => Z80::<$F>::from(Z80Any::from($c)),
    } } }
    macro_rules! typed { ($c:ident) => { match fl { 0 => Dyn::N(to!(NMOS, $c)), 1 => Dyn::C(to!(CMOS, $c)), _ => Dyn::B(to!(BM1, $c)) } } }
    let back = route >= 3;
    match d {
        Dyn::N(c) => if back { Dyn::Any(into(Z80Any::from(c), fl)) } else { typed!(c) },
        Dyn::C(c) => if back { Dyn::Any(into(Z80Any::from(c), fl)) } else { typed!(c) },
        Dyn::B(c) => if back { Dyn::Any(into(Z80Any::from(c), fl)) } else { typed!(c) },
        Dyn::Any(a) => match route {
            0 => match fl { 0 => Dyn::N(a.into_nmos().unwrap_nmos()), 1 => Dyn::C(a.into_cmos().unwrap_cmos()), _ => Dyn::B(a.into_bm1().unwrap_bm1()) },
            1 | 2 => match fl { 0 => Dyn::N(a.into()), 1 => Dyn::C(a.into()), _ => Dyn::B(a.into()) },
            _ => Dyn::Any(into(a, fl)),
        },
    }
}
fn into(a: Z80Any, fl: i64) -> Z80Any { match fl { 0 => a.into_nmos(), 1 => a.into_cmos(), _ => a.into_bm1() } }

fn fresh(any: bool, fl: i64, how: i64) -> Dyn {
    match (any, fl, how) {
        // how 0: new, just after reset; 1: Default, all zero
        (false, 0, 0) => Dyn::N(Z80::new()),
        (false, 1, 0) => Dyn::C(Z80::new()),
        (false, _, 0) => Dyn::B(Z80::new()),
        (false, 0, _) => Dyn::N(Default::default()),
        (false, 1, _) => Dyn::C(Default::default()),
        (false, _, _) => Dyn::B(Default::default()),
        (true, 0, 0) => Dyn::Any(Z80Any::new_nmos()),
        (true, 1, 0) => Dyn::Any(Z80Any::new_cmos()),
        (true, _, 0) => Dyn::Any(Z80Any::new_bm1()),
        (true, _, _) => Dyn::Any(Z80Any::default()),
    }
}
const TAGS: [&str; 14] = ["NMOS", "nmos", "Nmos", "nMOS", "CMOS", "cmos", "Cmos", "BM1", "bm1", "Bm1", "", "NMOS ", "Z80", "BM"];

/// A register-only instruction: no host access beyond the given opcodes.
const INS: [u8; 44] = [0x00, 0xDD, 0xFD, 0xFB, 0xF3, 0x37, 0x3F, 0x3C, 0x24, 0x2C, 0x26 ^ 0x42, 0x67, 0x6F, 0x7C, 0x85, 0x08, 0xD9, 0xEB, 0xF9, 0x09, 0x19,
    0x29, 0x39, 0x23, 0x2B, 0x33, 0x2F, 0x27, 0x07, 0x17, 0xE9, 0xA7, 0xB9, 0x47, 0x4F, 0x5A, 0x63, 0x04, 0x0D, 0x14, 0x1D, 0x03, 0x1B, 0x76];
const ED: [u8; 12] = [0x44, 0x46, 0x56, 0x5E, 0x47, 0x4F, 0x57, 0x5F, 0x42, 0x5A, 0x6A, 0x72];

fn gen_op(r: &mut Rng, mode: u64) -> Vec<i64> {
    let p = r.pick(&[0xDDi64, 0xFD]);
    let b = r.byte() as i64;
    let w = r.word() as i64;
    let k = match mode { 1 if r.chance(2, 5) => 24, _ => r.below(32) as i64 };
    match k {
        0 => if r.chance(1, 3) { vec![0] } else { vec![5] },
        1 | 2 | 22 => vec![k, w],
        3 | 4 | 7 | 8 => vec![k, b],
        6 => vec![6, r.pick(&[1, 2, 127, 128, 255, 256, -1, -127, 1000, 65535, 0x7fff_ffff, -0x8000_0000, b, b * 3, 0])],
        9 => vec![9, r.bit(), r.bit()],
        11 => vec![11, r.below(3) as i64],
        14 => vec![14, r.below(8) as i64, r.pick(&[0, 0, 0xDD, 0xFD]), b],
        15 => vec![15, r.below(4) as i64, b, r.byte() as i64],
        16 => vec![16, r.below(4) as i64, w],
        17 => vec![17, p, b, r.byte() as i64],
        18 => vec![18, p, w],
        24 => vec![24, r.below(3) as i64, r.below(6) as i64],
        26 | 31 => if r.chance(1, 5) { vec![26, 0xED, r.pick(&ED) as i64] } else { vec![26, r.pick(&INS) as i64, 0] },
        27 => if r.chance(1, 4) { vec![27, r.below(3) as i64, r.bit(), r.bit()] } else { vec![5] },
        28 => if r.chance(1, 3) { vec![28, r.below(TAGS.len() as u64) as i64] } else { vec![23] },
        30 => vec![30, r.pick(&[0, 0x37, 0x3F, 0x3C, 0xDD, 0xFB, 0x08, 0xD9])],
        k => vec![k],
    }
}

fn act<C: Vcpu>(c: &mut C, op: &[i64]) -> i64 {
    match op[0] {
        0 => c.reset(),
        1 => c.set_pc(op[1] as u16),
        2 => c.set_sp(op[1] as u16),
        3 => c.set_acc(op[1] as u8),
        4 => c.set_flags(CpuFlags::from_bits_retain(op[1] as u8)),
        5 => c.inc_r(),
        6 => c.add_r(op[1] as i32),
        7 => c.set_r(op[1] as u8),
        8 => c.set_i(op[1] as u8),
        9 => c.set_iffs(op[1] != 0, op[2] != 0),
        10 => c.halt(),
        11 => c.set_im(im_of(op[1])),
        12 => c.ex_af_af(),
        13 => c.exx(),
        14 => c.set_reg(reg8(op[1]), pxo(op[2]), op[3] as u8),
        15 => c.set_reg2(RP[op[1] as usize], op[2] as u8, op[3] as u8),
        16 => c.set_reg16(RP[op[1] as usize], op[2] as u16),
        17 => c.set_index2(px(op[1]), op[2] as u8, op[3] as u8),
        18 => c.set_index16(px(op[1]), op[2] as u16),
        19 => c.restore_iff1(),
        20 => c.disable_interrupts(),
        21 => c.enable_interrupts(),
        22 => c.mp_set(op[1] as u16),
        23 => c.norm(),
        25 => { let d = c.clone(); *c = d }
        26 => {
            let mut h = Host::new(0, Env::default());
            h.load(c.get_pc(), &[op[2] as u8]);
            let mut k = Clk::new(0, 0);
            let r = c.execute_instruction(&mut h, &mut k, None::<CpuDebugFn>, op[1] as u8);
            return out_num(&r, &h);
        }
        _ => (),
    }
    0
}

pub fn run(args: &crate::Args) {
    let mut r = Rng::new(args.num("seed", 1).wrapping_mul(0x9111) ^ 0x4150_4921);
    let mut w = crate::Shards::new(args);
    let len = args.num("len", 40);
    for i in 0..args.num("n", 1000) {
        let fl = i as i64 % 3;
        let any = r.chance(1, 2);
        let v0 = gen_vec(&mut r, fl);
        let mut v = v0;
        v[23] = r.bit();
        v[22] = r.bit();
        v[24] = r.pick(&[0, 0, 0xDD, 0xFD]);
        let mut d = if any { Dyn::Any(Z80Any::mk(&v, fl)) } else {
            match fl { 0 => Dyn::N(Z80::mk(&v, fl)), 1 => Dyn::C(Z80::mk(&v, fl)), _ => Dyn::B(Z80::mk(&v, fl)) } };
        let mut line = format!("[{},{},[", fl, ints(&v));
        for n in 0..len {
            let op = if n == 0 { vec![29] } else { gen_op(&mut r, args.num("mode", 0)) };
            let res = catch_unwind(AssertUnwindSafe(|| {
                let mut ret = 0;
                match op[0] {
                    24 => {
                        let was = d.clone();
                        d = convert(d.clone(), op[1], op[2]);
                        // back to where it came from: 1 if that is the same CPU in every respect
                        let fl = on!(&was, c => c.fl());
                        let back = match was { Dyn::Any(_) => convert(d.clone(), fl, 3), _ => match &d {
                            Dyn::Any(_) => convert(d.clone(), fl, op[2] % 3), _ => convert(d.clone(), fl, (op[2] + 1) % 3) } };
                        ret = alike(&was, &back);
                    }
                    // a reset CPU equals a new one, whatever it was before
                    0 => {
                        on!(&mut d, c => c.reset());
                        let new = fresh(matches!(d, Dyn::Any(_)), on!(&d, c => c.fl()), 0);
                        ret = alike(&d, &new);
                    }
                    27 => d = fresh(op[2] != 0, op[1], op[3]),
                    28 => match Z80Any::with_tag(TAGS[op[1] as usize]) { None => ret = -1, Some(c) => d = Dyn::Any(c) },
                    30 => on!(&d, c => {
                        // a normalized CPU equals any other in the same state; but for CMOS only after an instruction,
                        // since there is more to a flavour than what is shown before
                        let (mut a, mut b) = (c.clone(), rebuilt(c));
                        if c.fl() != 1 {
                            for c in [&mut a, &mut b] {
                                let (mut h, mut k) = (Host::new(0, Env::default()), Clk::new(0, 0));
                                let _ = c.execute_instruction(&mut h, &mut k, None::<CpuDebugFn>, op[1] as u8);
                            }
                        }
                        a.norm();
                        b.norm();
                        ret = same(&a, &b)
                    }),
                    _ => ret = on!(&mut d, c => act(c, &op)),
                }
                let f = on!(&d, c => c.fl());
                let (v, o) = on!(&d, c => observe(c));
                // text of the run-time type
                let shown = match &d { Dyn::Any(a) => fl_of_tag(&a.to_string()) == f && (a.is_nmos(), a.is_cmos(), a.is_bm1()) == (f == 0, f == 1, f == 2), _ => true };
                if !shown { ret = -9 }
                (ret, f, v, o)
            }));
            let (ret, f, v, o) = match res { Ok(x) => x, Err(_) => (-99, 9, [0; 26], vec![]) };
            if n > 0 { line.push(',') }
            line.push_str(&format!("[{},{},{},{},{}]", ints(&op), ret, f, ints(&v), ints(&o)));
            if ret == -99 { break }
        }
        line.push_str("]]\n");
        w.next().write_all(line.as_bytes()).unwrap();
    }
}
fn alike(a: &Dyn, b: &Dyn) -> i64 {
    match (a, b) {
        (Dyn::N(a), Dyn::N(b)) => same(a, b), (Dyn::C(a), Dyn::C(b)) => same(a, b),
        (Dyn::B(a), Dyn::B(b)) => same(a, b), (Dyn::Any(a), Dyn::Any(b)) => same(a, b), _ => -8,
    }
}
fn rebuilt<C: Vcpu>(c: &C) -> C { C::mk(&c.vec(), c.fl()) }
fn same<C: Vcpu>(a: &C, b: &C) -> i64 { a.equals(b) as i64 }
