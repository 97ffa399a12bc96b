//! Recorded CPU transitions: one call of the public interface per record.
use crate::cpuvec::*;
use crate::host::*;
use crate::rng::Rng;
use crate::wrapped;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::z80::{BM1, CMOS, NMOS};
use z80emu::*;

pub struct Rec {
    pub kind: i64,
    pub fl: i64,
    pub ts0: i64,
    pub code: i64,
    pub env: Env,
    pub pre: V,
    pub out: i64,
    pub acc: i64,
    pub ts1: i64,
    pub post: V,
    pub bus: Vec<[i64; 5]>,
    pub clk: Vec<[i64; 3]>,
    pub dbg: Vec<i64>,
    pub mem: Vec<i64>,
}

pub fn js<const N: usize>(v: &[[i64; N]]) -> String {
    let mut s = String::from("[");
    for (i, e) in v.iter().enumerate() {
        if i > 0 { s.push(',') }
        s.push_str(&ints(e));
    }
    s.push(']');
    s
}
pub fn ints(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, e) in v.iter().enumerate() {
        if i > 0 { s.push(',') }
        s.push_str(&e.to_string());
    }
    s.push(']');
    s
}
impl Rec {
    pub fn write(&self, w: &mut impl Write) {
        // what the host answered, in order
        let inp: Vec<i64> = self.bus.iter().filter(|e| matches!(e[0], 1 | 2 | 3 | 5 | 7)).map(|e| e[2]).collect();
        let bus: Vec<[i64; 5]> = self.bus.iter().filter(|e| e[0] != 9).cloned().collect();
        writeln!(w, "[{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}]", self.kind, self.fl, self.ts0, self.code, self.env.json(),
            ints(&self.pre), ints(&inp), self.out, self.acc, self.ts1, ints(&self.post), js(&bus), js(&self.clk), ints(&self.dbg), ints(&self.mem)).unwrap();
    }
}

/// The outcome of a call; a break that does not carry what the host gave is 7.
pub fn out_num(r: &core::result::Result<(), BreakCause<u32, u32>>, h: &Host) -> i64 {
    match r {
        Ok(()) => 0,
        Err(BreakCause::Halt) => 1,
        Err(BreakCause::WriteIo(n)) => if *n == h.outs { 2 } else { 7 },
        Err(BreakCause::Reti(n)) => if *n == h.retis + 1_000_000 { 3 } else { 7 },
    }
}

/// Performs one call and records it.  The debugger is attached when `dbg`.
pub fn call<C: Vcpu>(cpu: &mut C, fl: i64, h: &mut Host, k: &mut Clk, kind: i64, code: u8, dbg: bool) -> Rec {
    h.clear();
    k.log.clear();
    let pre = cpu.vec();
    let mem = (0..4).map(|i| h.peek((pre[15] as u16).wrapping_add(i)) as i64).collect();
    let ts0 = k.cur;
    let mut seen: Vec<i64> = vec![0];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cb = |d: CpuDebug| {
            seen[0] += 1;
            seen.push(d.pc as i64);
            seen.extend(d.code.as_slice().iter().map(|b| *b as i64));
        };
        let f = if dbg { Some(cb) } else { None };
        match kind {
            0 => { let r = wrapped!(h, k, |h, k| cpu.execute_next(h, k, f)); (out_num(&r, h), 1) }
            1 => match wrapped!(h, k, |h, k| cpu.irq(h, k, f)) { None => (0, 0), Some(r) => (out_num(&r, h), 1) },
            4 => { cpu.reset(); (0, 1) }
            2 => { let a = wrapped!(h, k, |h, k| cpu.nmi(h, k)); (0, a as i64) }
            _ => { let r = wrapped!(h, k, |h, k| cpu.execute_instruction(h, k, f, code)); (out_num(&r, h), 1) }
        }
    }));
    let (out, acc) = r.unwrap_or((9, 1));
    let post = cpu.vec();
    let bus = h.log.borrow().clone();
    Rec { kind, fl, ts0, code: code as i64, env: h.env, pre, out, acc, ts1: k.cur, post, bus, clk: k.log.clone(),
        dbg: if dbg { seen } else { vec![-1] }, mem }
}

pub fn gen_env(r: &mut Rng, rich: bool) -> Env {
    let mut e = Env::default();
    let contended = crate::wrap::wrap() < 4;
    e.pv = r.byte();
    e.iv = match r.below(4) { 0 => 0xFF, 1 => r.byte(), 2 => r.pick(&[0xC7, 0xCF, 0xD7, 0xDF, 0xE7, 0xCD, 0xC3, 0, 0x76, 0xFB, 0xF3]), _ => r.byte() & 0xFE };
    if rich {
        e.cont = r.pick(&[0, 0, 1, 5, 6]);
        if !contended { e.cont = 0 }
        e.iw = r.pick(&[0, 0, 1, 2, 7, 300]);
        e.pw = r.pick(&[0, 0, 1, 3, 255, 1000]);
        e.ow = r.pick(&[0, 0, 1, 3, 255, 1000]);
        e.ob = r.chance(1, 5) as i64;
        e.rb = r.chance(1, 5) as i64;
        e.irq = r.chance(1, 3) as i64;
    }
    e
}

pub fn gen_vec(r: &mut Rng, fl: i64) -> V {
    let mut v: V = [0; 26];
    for i in 0..8 { v[i] = r.byte() as i64 }
    for i in 8..17 { v[i] = r.word() as i64 }
    // the places where 16-bit addresses wrap
    if r.chance(1, 8) { v[15] = r.pick(&[0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF]) }
    if r.chance(1, 10) { v[14] = r.pick(&[0, 1, 2, 0xFFFE, 0xFFFF]) }
    v[17] = r.byte() as i64;
    v[18] = r.byte() as i64;
    v[19] = r.bit();
    v[20] = r.bit();
    v[21] = r.below(3) as i64;
    v[25] = match fl { 1 => 0, 3 => r.below(128) as i64, _ => r.bit() };
    v
}

/// Every opcode of every page, as (prefix, bytes, displaced) tuples.
pub fn all_ops() -> Vec<(i64, Vec<u8>)> {
    let mut v = Vec::new();
    for px in [0i64, 0xDD, 0xFD] {
        for op in 0..=255u8 {
            match op {
                0xCB | 0xED => (),
                _ => v.push((px, vec![op])),
            }
        }
        for op in 0..=255u8 { v.push((px, vec![0xED, op])) }
        if px == 0 { for op in 0..=255u8 { v.push((0, vec![0xCB, op])) } }
        else { for op in 0..=255u8 { v.push((px, vec![0xCB, 0xEE, op])) } } // 0xEE: replaced by a displacement
    }
    v
}

fn xyz(op: u8) -> (u8, u8, u8) { (op >> 6, op >> 3 & 7, op & 7) }

/// Named groups of instructions, by the property they belong to.
pub fn in_group(g: &str, px: i64, b: &[u8]) -> bool {
    let op = b[0];
    let (x, y, z) = xyz(op);
    let cb = op == 0xCB;
    let ed = op == 0xED;
    let (ex, ey, ez) = if ed { xyz(b[1]) } else { (9, 9, 9) };
    match g {
        "all" => true,
        "alu8" => cb || (!ed && (x == 2 || (x == 3 && z == 6) || (x == 0 && (z == 4 || z == 5 || z == 7)))) || (ed && ex == 1 && (ez == 4 || (ez == 7 && ey >= 4))),
        "alu16" => (!ed && !cb && x == 0 && ((z == 1 && y & 1 == 1) || z == 3)) || (ed && ex == 1 && ez == 2),
        "block" => ed && ex == 2,
        "data" => (!ed && !cb && ((x == 0 && (z == 2 || z == 6 || (z == 1 && y & 1 == 0) || op == 8)) || x == 1
                  || (x == 3 && (z == 1 || z == 5 || (z == 3 && y >= 2 && y <= 5))))) || (ed && ex == 1 && (ez == 0 || ez == 1 || ez == 3 || (ez == 7 && ey < 4))),
        "control" => (!ed && !cb && ((x == 0 && z == 0 && y >= 2) || (x == 3 && (z == 0 || z == 2 || z == 4 || z == 7 || op == 0xC9 || op == 0xE9 || op == 0xCD || op == 0xC3))))
                     || (ed && ex == 1 && ez == 5),
        "q" => op == 0x37 || op == 0x3F || (ed && b[1] == 0x71) || (!ed && !cb && (op == 2 || op == 0x12 || op == 0x32 || op == 0xD3)) || (ed && ex == 1 && ez == 7 && (ey == 2 || ey == 3)),
        "iff" => op == 0xFB || op == 0xF3 || op == 0x76 || op == 0xDD || op == 0xFD || (ed && ex == 1 && (ez == 5 || ez == 6 || ez == 7)),
        "prefix" => px != 0 || op == 0xDD || op == 0xFD || ed || cb,
        "io" => (!ed && (op == 0xD3 || op == 0xDB)) || (ed && ((ex == 1 && (ez == 0 || ez == 1)) || (ex == 2 && ez >= 2 && ez < 4 && ey >= 4))) || (ed && b[1] == 0x4D),
        _ => panic!("unknown group {}", g),
    }
}

/// A directly constructed state, then one call.
pub fn direct<C: Vcpu>(r: &mut Rng, fl: i64, px: i64, b: &[u8], kind: i64, rich: bool, dbg: bool) -> Rec {
    let mut env = gen_env(r, rich);
    let mut v = gen_vec(r, fl);
    v[24] = px;
    let mut b = b.to_vec();
    if b.len() == 3 { b[1] = r.byte() }
    let op = b[0];
    if kind == 0 {
        if px == 0 && r.chance(1, 12) { v[23] = 1 }
        if px == 0 && v[23] == 0 && r.chance(1, 8) { env.irq = 0 }
        // mostly exercise the instruction itself, not the interrupt
        if env.irq != 0 && v[23] == 0 && px == 0 && !r.chance(1, 6) { v[19] = 0 }
    }
    let seed = r.next();
    let mut h = Host::new(seed, env);
    let pc = v[15] as u16;
    h.load(pc, if kind == 3 { &b[1..] } else { &b[..] });
    // operands at the edges of the address space and of signed displacements
    if r.chance(1, 2) {
        let w = r.word().to_le_bytes();
        h.load(pc.wrapping_add(b.len() as u16 - (kind == 3) as u16), &w);
    }
    // block instructions near the end of their run, and pointers that alias
    if op == 0xED && b[1] & 0xE0 == 0xA0 {
        if r.chance(2, 3) {
            let bc = r.pick(&[0u16, 1, 2, 0x100, 0x101, 0xFF, 0x200, 0x8000, 0xFFFF, 0x180]);
            v[2] = (bc >> 8) as i64;
            v[3] = (bc & 255) as i64;
        }
        let hl = (v[6] << 8 | v[7]) as u16;
        if r.chance(1, 2) { v[0] = h.peek(hl) as i64 }
        else if r.chance(1, 2) { v[0] = (h.peek(hl) as i64 + r.pick(&[1, 0x0F, 0x10, 0x80, 0xFF])) & 255 }
    }
    if r.chance(1, 20) {
        let pc = v[15];
        let t = r.pick(&[pc, (pc + 1) & 65535, (pc + 2) & 65535, v[14]]);
        match r.below(4) {
            0 => { v[6] = t >> 8; v[7] = t & 255 }
            1 => { v[4] = t >> 8; v[5] = t & 255 }
            2 => v[14] = t,
            _ => { v[12] = t; v[13] = t }
        }
    }
    let mut cpu = C::mk(&v, fl);
    let mut k = Clk::new(r.below(1 << 20) as i64, env.cont);
    let code = op;
    call(&mut cpu, fl, &mut h, &mut k, kind, code, dbg)
}

/// irq() / nmi() / execute_next under a pending interrupt, from arbitrary states.
pub fn direct_irq<C: Vcpu>(r: &mut Rng, fl: i64, dbg: bool, what: u64) -> Rec {
    let mut env = gen_env(r, true);
    env.irq = 1;
    let mut v = gen_vec(r, fl);
    let kind = match what { 1 => r.pick(&[0i64, 1]), 2 => 2, _ => r.pick(&[0i64, 0, 1, 1, 2, 2]) };
    match r.below(8) {
        0 => v[24] = r.pick(&[0xDD, 0xFD]),
        1 => { v[23] = 1; v[19] = 1; v[20] = 1 }
        2 | 3 => v[22] = 1,
        4 => { v[22] = r.bit(); v[23] = r.bit(); v[24] = r.pick(&[0, 0, 0xDD, 0xFD]) }
        _ => (),
    }
    if r.chance(2, 3) { v[19] = 1 }
    let mut h = Host::new(r.next(), env);
    if v[22] != 0 { h.poke(v[15] as u16, 0x76) }
    let mut cpu = C::mk(&v, fl);
    let mut k = Clk::new(r.below(1 << 20) as i64, env.cont);
    call(&mut cpu, fl, &mut h, &mut k, kind, 0, dbg)
}

/// A run of consecutive calls over program-like random memory.
pub fn sequence<C: Vcpu>(r: &mut Rng, fl: i64, len: usize, mode: u8, dbg: u64, resets: bool, out: &mut Vec<Rec>) {
    let mut env = gen_env(r, true);
    let mut v = gen_vec(r, fl);
    if r.chance(1, 2) { v[14] = 0x8000 }
    let mut h = Host::new(r.next(), env);
    h.mode = mode;
    let mut cpu = C::mk(&v, fl);
    let mut k = Clk::new(r.below(1 << 20) as i64, env.cont);
    for _ in 0..len {
        env.irq = r.chance(1, 6) as i64;
        env.ob = r.chance(1, 12) as i64;
        env.rb = r.chance(1, 6) as i64;
        env.iv = if r.chance(1, 2) { 0xFF } else { r.byte() };
        env.pv = r.byte();
        h.env = env;
        if r.chance(1, 25) { cpu.set_iffs(true, true) }
        let kind = match r.below(24) { 0 => 1, 1 => 2, 2 => 3, _ => 0 };
        let kind = if resets && r.chance(1, 16) { 4 } else { kind };
        let code = r.byte();
        let d = dbg == 1 || (dbg == 2 && r.chance(1, 2));
        let rec = call(&mut cpu, fl, &mut h, &mut k, kind, code, d);
        let dead = rec.out == 9;
        out.push(rec);
        if dead { break }
    }
}

pub fn run(args: &crate::Args) {
    let seed = args.num("seed", 1);
    let group = args.get("group", "all");
    let k = args.num("k", 4);
    let nirq = args.num("nirq", 0);
    let nseq = args.num("nseq", 0);
    let slen = args.num("slen", 100) as usize;
    let rich = args.num("rich", 1) != 0;
    let dbg = args.num("dbg", 0);
    let any = args.num("any", 0) == 1;
    let resets = args.num("resets", 0) == 1;
    let mode = args.num("mode", 1) as u8;
    let flavours: Vec<i64> = args.get("fl", "0,1,2").split(',').map(|s| s.parse().unwrap()).collect();
    let mut w = crate::Shards::new(args);
    let mut r = Rng::new(seed.wrapping_mul(0x1234_5677) ^ 0x5354_4550);
    let mut recs = Vec::new();
    macro_rules! fl { ($fl:expr, $f:ident, $($a:expr),*) => { match $fl {
        _ if any => $f::<Z80Any>($($a),*), 0 => $f::<Z80<NMOS>>($($a),*), 1 => $f::<Z80<CMOS>>($($a),*), 3 => $f::<Z80<Own>>($($a),*), _ => $f::<Z80<BM1>>($($a),*) } } }
    let ops: Vec<_> = all_ops().into_iter().filter(|(px, b)| group.split('+').any(|g| g != "none" && in_group(g, *px, b))).collect();
    for (px, b) in &ops {
        for _ in 0..k {
            for &fl in &flavours {
                let d = dbg == 1 || (dbg == 2 && r.chance(1, 2));
                let kind = if r.chance(1, 16) { 3 } else { 0 };
                let rec = fl!(fl, direct, &mut r, fl, *px, b, kind, rich, d);
                rec.write(w.next());
            }
        }
    }
    for i in 0..nirq {
        let fl = flavours[i as usize % flavours.len()];
        fl!(fl, direct_irq, &mut r, fl, dbg == 1 || (dbg == 2 && i % 2 == 1), args.num("irqk", 0)).write(w.next());
    }
    for i in 0..nseq {
        let fl = flavours[i as usize % flavours.len()];
        recs.clear();
        fl!(fl, sequence, &mut r, fl, slen, mode, dbg, resets, &mut recs);
        for rec in &recs { rec.write(w.next()) }
    }
}
