//! Replays the transitions explored by TLC in module Z80Ctl into the real CPU: each one from a
//! directly constructed state, and all of them along walks of one live object.
use crate::cpuvec::*;
use crate::host::*;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

#[derive(Clone, Debug)]
struct Edge { kind: i64, irq: i64, vec: i64, is: Vec<u8>, pre: V, acc: i64, out: i64, ts: i64, post: V, nx: V }

fn act<Q: Flavour + 'static>(cpu: &mut Z80<Q>, e: &Edge) -> (i64, i64, i64, V) {
    let mut env = Env::default();
    env.irq = e.irq;
    env.iv = e.vec as u8;
    let mut h = Host::new(0, env);
    h.mode = 9;
    if e.kind == 3 { h.load(e.pre[15] as u16, &e.is[1..]) } else { h.load(e.pre[15] as u16, &e.is) }
    h.load(0x3F00 | e.vec as u16, &[0x00, 0x20]);
    let mut k = Clk::new(0, 0);
    let r = catch_unwind(AssertUnwindSafe(|| match e.kind {
        0 => { let r = cpu.execute_next(&mut h, &mut k, None::<CpuDebugFn>); (crate::steps::out_num(&r, &h), h.acks as i64) }
        1 => match cpu.irq(&mut h, &mut k, None::<CpuDebugFn>) { None => (0, 0), Some(r) => (crate::steps::out_num(&r, &h), 1) },
        2 => (0, cpu.nmi(&mut h, &mut k) as i64),
        3 => { let r = cpu.execute_instruction(&mut h, &mut k, None::<CpuDebugFn>, e.is[0]); (crate::steps::out_num(&r, &h), 1) }
        4 => { cpu.halt(); (0, 1) }
        5 => { cpu.enable_interrupts(); (0, 1) }
        6 => { cpu.disable_interrupts(); (0, 1) }
        _ => { cpu.restore_iff1(); (0, 1) }
    }));
    let (out, acc) = r.unwrap_or((9, 9));
    (acc, out, k.cur, vec_of(cpu))
}
fn norm<Q: Flavour + 'static>(cpu: &mut Z80<Q>, nx: &V) {
    cpu.set_acc(nx[0] as u8);
    cpu.set_flags(CpuFlags::from_bits_retain(nx[1] as u8));
    cpu.set_reg16(StkReg16::HL, (nx[6] << 8 | nx[7]) as u16);
    cpu.set_index16(Prefix::Xdd, nx[12] as u16);
    cpu.set_index16(Prefix::Yfd, nx[13] as u16);
    cpu.set_sp(nx[14] as u16);
    cpu.set_pc(nx[15] as u16);
    cpu.set_memptr(nx[16] as u16);
    cpu.set_i(nx[17] as u8);
    cpu.set_r(nx[18] as u8);
}
fn check(how: &str, fl: i64, e: &Edge, got: (i64, i64, i64, V), bad: &mut u64) -> bool {
    let mut d: Vec<String> = Vec::new();
    if got.0 != e.acc { d.push(format!("acc:{}:{}", e.acc, got.0)) }
    if got.1 != e.out { d.push(format!("out:{}:{}", e.out, got.1)) }
    if got.2 != e.ts { d.push(format!("ts:{}:{}", e.ts, got.2)) }
    for i in 0..26 { if got.3[i] != e.post[i] { d.push(format!("{}:{}:{}", i, e.post[i], got.3[i])) } }
    if !d.is_empty() {
        *bad += 1;
        if *bad < 400 {
            println!("BAD {} kind={} fl={} irq={} vec={} is={:?} acc={} pre={:?} diff={}", how, e.kind, fl, e.irq, e.vec, e.is, e.acc, e.pre, d.join(","));
        }
    }
    d.is_empty()
}

fn replay<Q: Flavour + 'static>(fl: i64, es: &[Edge]) {
    let mut bad = 0u64;
    for e in es {
        let mut c = make::<Q>(&e.pre);
        let got = act(&mut c, e);
        check("direct", fl, e, got, &mut bad);
    }
    // walks: always the nearest transition not taken yet
    let mut from: HashMap<V, Vec<usize>> = HashMap::new();
    for (i, e) in es.iter().enumerate() { from.entry(e.pre).or_default().push(i) }
    let mut todo: HashMap<V, Vec<usize>> = from.clone();
    let start = es[0].pre;
    let mut cur = start;
    let mut c = make::<Q>(&start);
    let (mut steps, mut walks) = (0u64, 1u64);
    loop {
        // breadth-first to a state with work left
        let mut seen: HashMap<V, Option<usize>> = HashMap::new();
        let mut q = VecDeque::new();
        seen.insert(cur, None);
        q.push_back(cur);
        let mut goal = None;
        while let Some(v) = q.pop_front() {
            if todo.get(&v).map(|t| !t.is_empty()).unwrap_or(false) { goal = Some(v); break }
            for &i in from.get(&v).map(|x| &x[..]).unwrap_or(&[]) {
                if !seen.contains_key(&es[i].nx) { seen.insert(es[i].nx, Some(i)); q.push_back(es[i].nx) }
            }
        }
        let goal = match goal {
            Some(g) => g,
            None if cur != start => { cur = start; c = make::<Q>(&start); walks += 1; continue }
            None => break,
        };
        let mut path = vec![todo.get_mut(&goal).unwrap().pop().unwrap()];
        let mut v = goal;
        while let Some(Some(i)) = seen.get(&v) { path.push(*i); v = es[*i].pre }
        for &i in path.iter().rev() {
            let e = &es[i];
            let got = act(&mut c, e);
            steps += 1;
            if !check("walk", fl, e, got, &mut bad) {
                c = make::<Q>(&e.nx);
                walks += 1;
            } else {
                norm(&mut c, &e.nx);
            }
            cur = e.nx;
        }
    }
    println!("CTL fl={} edges={} walk_steps={} walks={} bad={}", fl, es.len(), steps, walks, bad);
}

pub fn run(args: &crate::Args) {
    let text = std::fs::read_to_string(args.get("edges", "")).unwrap();
    let mut by: [Vec<Edge>; 3] = Default::default();
    for l in text.lines() {
        let n: Vec<i64> = l.split(' ').map(|s| s.parse().unwrap()).collect();
        let k = n[4] as usize;
        let arr = |at: usize| { let mut v: V = [0; 26]; v.copy_from_slice(&n[at..at + 26]); v };
        let b = 5 + k;
        by[n[1] as usize].push(Edge { kind: n[0], irq: n[2], vec: n[3], is: n[5..b].iter().map(|x| *x as u8).collect(), pre: arr(b),
            acc: n[b + 26], out: n[b + 27], ts: n[b + 28], post: arr(b + 29), nx: arr(b + 55) });
    }
    replay::<NMOS>(0, &by[0]);
    replay::<CMOS>(1, &by[1]);
    replay::<BM1>(2, &by[2]);
}
