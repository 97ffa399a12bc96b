//! Recorded runs of `execute_with_limit`.
use crate::cpuvec::*;
use crate::host::*;
use crate::rng::Rng;
use crate::wrapped;
use crate::steps::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::z80::{BM1, CMOS, NMOS};
use z80emu::*;

fn lines(l: &Line) -> (i64, Vec<(i64, i64)>) {
    match l {
        Line::Const => (0, vec![]),
        Line::At(v) => (0, v.clone()),
        Line::UntilAck(v) => (1, v.iter().map(|t| (*t, 0)).collect()),
    }
}

/// The boundaries (clock values between steps) of single stepping, from copies of everything.
fn boundaries<C: Cpu + Clone>(cpu: &C, h: &Host, k: &Clk, max: usize) -> Vec<i64> {
    let (mut cpu, mut k) = (cpu.clone(), k.clone());
    let mut h = h.copy();
    let mut b = vec![k.cur];
    for _ in 0..max {
        h.clear();
        k.log.clear();
        let r = catch_unwind(AssertUnwindSafe(|| { let _ = cpu.execute_next(&mut h, &mut k, None::<CpuDebugFn>); }));
        b.push(k.cur);
        if r.is_err() { break }
    }
    b
}

fn scenario<C: Vcpu>(r: &mut Rng, fl: i64, len: usize, resume: bool, w: &mut crate::Shards) {
    let mut env = gen_env(r, true);
    env.irq = 0;
    env.ob = 0;
    env.rb = 0;
    let mut v = gen_vec(r, fl);
    if r.chance(1, 2) { v[14] = 0x8000 }
    match r.below(6) {
        0 => v[22] = 1,
        1 => { v[23] = 1; v[19] = 1; v[20] = 1 }
        2 => v[24] = r.pick(&[0xDD, 0xFD]),
        3 => { v[22] = r.bit(); v[23] = r.bit(); v[24] = r.pick(&[0, 0xDD]); v[19] = 1 }
        _ => (),
    }
    if r.chance(2, 3) { v[19] = 1; v[20] = 1 }
    let ts0 = r.below(1 << 16) as i64 - 200;
    let mut h = Host::new(r.next(), env);
    h.mode = r.pick(&[1, 2, 2, 2, 4]);
    h.max_calls = 100_000;
    h.iv_seq = (0..5).map(|_| if v[21] == 0 { r.pick(&[0xFFu8, 0xFB, 0xFB, 0x76, 0xDD, 0, 0xF3, 0xC7, 0xED, 0x3C, 0xD3]) } else { r.byte() }).collect();
    let total = len as i64 * 9;
    h.line = match r.below(4) {
        0 => { let mut l = Vec::new(); let mut t = ts0; for _ in 0..6 { t += r.below(total as u64 / 2) as i64; let e = t + 1 + r.below(60) as i64; l.push((t, e)); } Line::At(l) }
        1 => Line::At(vec![(ts0, ts0 + total * 4)]),
        2 => { let mut l = Vec::new(); let mut t = ts0; for _ in 0..6 { t += r.below(total as u64 / 3) as i64; l.push(t); } Line::UntilAck(l) }
        _ => Line::At(vec![]),
    };
    if r.chance(2, 3) { h.ob_mask = r.next() & r.next() & 0x3FFF_FFFF }
    if r.chance(2, 3) { h.rb_mask = r.next() & r.next() & 0x3FFF_FFFF }
    let mut cpu = C::mk(&v, fl);
    let mut k = Clk::new(ts0, env.cont);
    let bs = boundaries(&cpu, &h, &k, len);
    let n = bs.len() as u64;
    let calls = 1 + r.below(3);
    let mut at = 0;
    for _ in 0..calls {
        // a limit at, just before or just after a boundary; sometimes already reached
        let bi = (at + 1 + r.below((n - at).max(2) - 1)).min(n - 1);
        let limit = bs[bi as usize] + r.pick(&[0, 0, 0, -1, 1, -2, 3]);
        let limit = if r.chance(1, 12) { bs[at as usize] - r.below(3) as i64 } else { limit };
        at = bi;
        let (pre, t0) = (cpu.vec(), k.cur);
        let (ua, line) = lines(&h.line);
        let (ob, rb) = (h.ob_mask, h.rb_mask);
        h.clear();
        k.log.clear();
        let mut nbreaks = 0;
        let res = catch_unwind(AssertUnwindSafe(|| loop {
            let r = wrapped!(&mut h, &mut k, |h, k| cpu.execute_with_limit(h, k, limit));
            match out_num(&r, &h) {
                0 => break 0,
                7 => break 7,
                b => { nbreaks += 1; if !resume { break b } if nbreaks > 5000 { panic!("too many breaks") } }
            }
        }));
        let out = res.unwrap_or(9);
        let bus = h.log.borrow().clone();
        let inp: Vec<i64> = bus.iter().filter(|e| matches!(e[0], 1 | 2 | 3 | 5 | 7)).map(|e| e[2]).collect();
        let bus: Vec<[i64; 5]> = bus.into_iter().filter(|e| e[0] != 9).collect();
        let e = [env.cont as i64, 0, env.iw as i64, env.pw as i64, env.ow as i64, if resume { 0 } else { ob as i64 }, if resume { 0 } else { rb as i64 }];
        let line: Vec<[i64; 2]> = line.iter().map(|(a, b)| [*a, *b]).collect();
        writeln!(w.next(), "[{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}]", resume as i64, fl, t0, limit, ints(&e), js(&line), ua, ints(&pre), ints(&inp),
            out, k.cur, ints(&cpu.vec()), js(&bus), js(&k.log), nbreaks).unwrap();
        if out == 9 { break }
        // next call: counters start over
        if let Line::UntilAck(l) = &mut h.line { let n = h.acks.min(l.len()); l.drain(..n); }
        let na = h.acks % h.iv_seq.len();
        h.iv_seq.rotate_left(na);
        h.acks = 0;
        h.ob_mask = if h.outs < 64 { h.ob_mask >> h.outs } else { 0 };
        h.rb_mask = if h.retis < 64 { h.rb_mask >> h.retis } else { 0 };
        h.outs = 0;
        h.retis = 0;
        if r.chance(1, 6) { let _ = catch_unwind(AssertUnwindSafe(|| cpu.nmi(&mut h, &mut k))); }
    }
}

pub fn run(args: &crate::Args) {
    let mut r = Rng::new(args.num("seed", 1).wrapping_mul(0x77) ^ 0x4C49_4D49);
    let mut w = crate::Shards::new(args);
    let len = args.num("len", 60) as usize;
    let resume = args.num("resume", 0) == 1;
    let any = args.num("any", 0) == 1;
    let own = args.num("own", 0) == 1;
    for i in 0..args.num("n", 1000) {
        match i % 3 {
            0..=2 if any => scenario::<Z80Any>(&mut r, i as i64 % 3, len, resume, &mut w),
            _ if own => scenario::<Z80<Own>>(&mut r, 3, len, resume, &mut w),
            0 => scenario::<Z80<NMOS>>(&mut r, 0, len, resume, &mut w),
            1 => scenario::<Z80<CMOS>>(&mut r, 1, len, resume, &mut w),
            _ => scenario::<Z80<BM1>>(&mut r, 2, len, resume, &mut w),
        }
    }
}
