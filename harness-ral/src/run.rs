//! Histories of calls of the runner and its debugger, on a recording bus.
use crate::cpuvec::*;
use crate::rng::{mem_byte, Rng};
use crate::{Args, Shards};
use ral1243::bus::{BusDevice, Terminator};
use ral1243::clock::TClock;
use ral1243::debug::{was_just_a_call, was_just_a_ret, Debugger, Preview};
use ral1243::{FrameRunner, Ts};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::Write;
use std::num::NonZeroU16;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

#[derive(Clone)]
struct Host {
    seed: u64,
    mode: u8,
    over: HashMap<u16, u8>,
    log: RefCell<Vec<[i64; 5]>>,
    /// the interrupt line in absolute time
    line: Vec<(i64, i64)>,
    off: i64,
    iv: Vec<u8>,
    acks: usize,
    waits: [u16; 3],
    next: usize,
}
impl Host {
    fn peek(&self, a: u16) -> u8 { self.over.get(&a).copied().unwrap_or_else(|| mem_byte(self.seed, a, self.mode)) }
    fn ev(&self, k: i64, a: i64, v: i64, ts: Ts, x: i64) {
        let mut l = self.log.borrow_mut();
        if l.len() > 20_000 { panic!("runaway") }
        l.push([k, a, v, ts as i64, x]);
    }
}
impl Memory for Host {
    type Timestamp = Ts;
    fn read_debug(&self, a: u16) -> u8 { self.peek(a) }
    fn read_mem(&self, a: u16, ts: Ts) -> u8 { let v = self.peek(a); self.ev(2, a as i64, v as i64, ts, 0); v }
    fn read_mem16(&self, a: u16, ts: Ts) -> u16 {
        let v = u16::from_le_bytes([self.peek(a), self.peek(a.wrapping_add(1))]);
        self.ev(3, a as i64, v as i64, ts, 0);
        v
    }
    fn read_opcode(&mut self, a: u16, ir: u16, ts: Ts) -> u8 { let v = self.peek(a); self.ev(1, a as i64, v as i64, ts, ir as i64); v }
    fn write_mem(&mut self, a: u16, v: u8, ts: Ts) { self.ev(4, a as i64, v as i64, ts, 0); self.over.insert(a, v); }
}
impl Io for Host {
    type Timestamp = Ts;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn is_irq(&mut self, ts: Ts) -> bool { let t = ts as i64 + self.off; self.line.iter().any(|l| l.0 <= t && t < l.1) }
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let v = self.iv[self.acks % self.iv.len()];
        self.acks += 1;
        self.ev(7, pc as i64, v as i64, ts, 0);
        (v, NonZeroU16::new(self.waits[0]))
    }
    fn read_io(&mut self, p: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let v = (p >> 3 ^ p) as u8;
        self.ev(5, p as i64, v as i64, ts, 0);
        (v, NonZeroU16::new(self.waits[1]))
    }
    fn write_io(&mut self, p: u16, v: u8, ts: Ts) -> (Option<()>, Option<NonZeroU16>) {
        self.ev(6, p as i64, v as i64, ts, 0);
        (None, NonZeroU16::new(self.waits[2]))
    }
    fn reti(&mut self, a: u16, ts: Ts) -> Option<()> { self.ev(8, a as i64, 0, ts, 0); None }
}
struct Dev { h: Host, end: Terminator<Ts> }
impl BusDevice for Dev {
    type Timestamp = Ts;
    type NextDevice = Terminator<Ts>;
    fn reset(&mut self, ts: Ts) { self.h.ev(12, 0, 0, ts, 0) }
    fn frame_end(&mut self, ts: Ts) { self.h.ev(10, 0, 0, ts, 0) }
    fn m1(&mut self, ts: Ts) { self.h.ev(13, 0, 0, ts, 0) }
    fn next_device(&mut self) -> &mut Terminator<Ts> { &mut self.end }
    fn next_second(&mut self, d: Ts) { self.h.ev(11, d as i64, 0, 0, 0); self.h.off += d as i64; }
}
impl Memory for Dev {
    forward_host_memory_types! { @ => Host }
    forward_host_memory_methods! { @ => |m| m.h }
}
impl Io for Dev {
    forward_host_io_types! { @ => Host }
    forward_host_io_methods! { (irq_data, write_io, read_io, is_irq, reti) => |m| m.h }
}

fn js<T: std::fmt::Debug>(v: &T) -> String { format!("{:?}", v).replace('(', "[").replace(')', "]").replace(' ', "") }
fn texts(d: &CpuDebug) -> String { format!("[\"{}\",\"{:x}\",\"{:X}\",\"{:#x}\",\"{:#X}\"]", d, d, d, d, d) }
fn shown<F: Flavour>(d: &Option<CpuDebug>, cpu: &Z80<F>) -> String {
    match d {
        None => "[]".into(),
        Some(d) => {
            let code: Vec<i64> = d.code.iter().map(|b| *b as i64).collect();
            format!("[{},{},{},{},\"{}\",\"{}\",[{},{}]]", js(&code), px_num(d.prefix), d.pc, texts(d), Debugger::of(d, cpu),
                format!("{:#}", Debugger::of(d, cpu)).replace('\n', "\\n"), was_just_a_call(d, cpu) as u8, was_just_a_ret(d, cpu) as u8)
        }
    }
}
fn gen_vec(r: &mut Rng) -> V {
    let mut v: V = [0; 26];
    for i in 0..8 { v[i] = r.byte() as i64 }
    for i in 8..17 { v[i] = r.word() as i64 }
    if r.chance(1, 8) { v[15] = r.pick(&[0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF]) }
    v[17] = r.byte() as i64;
    v[18] = r.byte() as i64;
    v[19] = r.chance(2, 3) as i64;
    v[20] = v[19];
    v[21] = r.pick(&[0, 1, 2, 2]);
    v[22] = r.chance(1, 10) as i64;
    v[23] = r.chance(1, 8) as i64;
    if v[22] == 0 && v[23] == 0 { v[24] = r.pick(&[0, 0, 0, 0xDD, 0xFD]) }
    v
}
/// Addresses the program will pass, to choose breakpoints from.
fn visits<F: Flavour>(cpu: &Z80<F>, h: &Host, ts: Ts, n: usize) -> Vec<u16> {
    let (mut cpu, mut h) = (cpu.clone(), h.clone());
    let mut k = TClock::new(ts);
    let mut v = vec![cpu.get_pc()];
    for _ in 0..n {
        h.log.borrow_mut().clear();
        if catch_unwind(AssertUnwindSafe(|| { let _ = cpu.execute_next(&mut h, &mut k, None::<CpuDebugFn>); })).is_err() { break }
        v.push(cpu.get_pc());
    }
    v
}

fn history<F: Flavour + 'static, const E: u32, const FR: u32>(r: &mut Rng, fl: i64, len: usize) -> String {
    // frames of 50 to 400 T-states
    let hz = { let span = if r.chance(1, 3) { 350 } else { 60 }; let f = FR * (50 + r.below(span) as u32); (f / (2 * E) + 1) * 2 * E };
    let hz = hz.max(10 * E);
    let frame = hz / FR;
    let mut runner = FrameRunner::<E, FR>::new(hz);
    assert_eq!(runner.external_clock_tstates(), hz / E);
    let mut cpu = Z80::<F>::default();
    let mut line = Vec::new();
    let mut t = 0;
    while t < 40 * frame as i64 + 4 * hz as i64 && line.len() < 60 {
        let span = if r.chance(1, 2) { frame as u64 } else { 4 * frame as u64 };
        t += r.below(span) as i64;
        let e = t + 1 + r.below(60) as i64;
        line.push((t, e));
        t = e;
    }
    if r.chance(1, 6) { line.clear() }
    let mut dev = Dev { end: Terminator::new(), h: Host { seed: r.next(), mode: r.pick(&[1, 2, 2, 2, 4, 5]), over: HashMap::new(), log: RefCell::new(Vec::new()),
        line, off: 0, iv: (0..7).map(|_| r.pick(&[0xFF, 0xFF, 0xFB, 0xC9, 0xC7, 0xDD, 0x00, 0x76, 0x3C, 0xF3])).collect(), acks: 0,
        waits: [r.pick(&[0, 0, 1, 7, 20]), r.pick(&[0, 0, 1, 9]), r.pick(&[0, 0, 1, 9])], next: 0 } };
    let quirk = r.below(6);
    if quirk == 0 {
        // chains of prefixes
        for a in 0..65536u32 { if (crate::rng::mix(a as u64 ^ dev.h.seed) >> 20) % 3 == 0 { dev.h.over.insert(a as u16, if a & 4 == 0 { 0xDD } else { 0xFD }); } }
    } else if quirk == 1 {
        // calls and returns
        for a in 0..65536u32 {
            let x = crate::rng::mix(a as u64 ^ dev.h.seed) >> 20;
            if x % 4 == 0 { dev.h.over.insert(a as u16, [0xC9, 0xCD, 0xC0, 0xC8, 0xD4, 0xDC, 0xFF, 0xE7, 0xD0, 0xD8, 0xC4, 0xF8][(x >> 8) as usize % 12]); }
        }
    }
    let mut calls = Vec::new();
    let mut next: Option<i64> = Some(0);
    let mut now = hz;
    let at = std::cell::Cell::new(0u16);
    let brk = RefCell::new("[]".to_string());
    let see = |d: &Option<CpuDebug>| if let Some(d) = d { at.set(d.pc) };
    for _ in 0..len {
        let op = next.take().unwrap_or_else(|| r.pick(&[1, 1, 3, 4, 4, 4, 4, 5, 5, 6, 6, 7, 7, 7, 8, 8, 9]));
        let op = if op == 3 && r.chance(1, 2) { r.pick(&[0, 2, 4, 3]) } else { op };
        if op == 0 { next = Some(9) }
        dev.h.log.borrow_mut().clear();
        let (arg, res) = match catch_unwind(AssertUnwindSafe(|| match op {
            0 => { runner.start(&mut cpu, &mut dev); ("[]".into(), "[]".into()) }
            1 => ("[]".into(), format!("[{}]", runner.step(&mut cpu, &mut dev))),
            2 => { runner.reset(&mut cpu, &mut dev); ("[]".into(), "[]".into()) }
            3 => ("[]".into(), runner.nmi(&mut cpu, &mut dev).map(|t| format!("[{}]", t)).unwrap_or("[]".into())),
            4 => { let (d, t) = runner.debug_step(&mut cpu, &mut dev); see(&d); ("[]".into(), format!("[{},{}]", shown(&d, &cpu), t)) }
            5 => { let (d, t) = runner.debug_runto_int(&mut cpu, &mut dev); see(&d); ("[]".into(), format!("[{},{}]", shown(&d, &cpu), t)) }
            6 => { let (d, t) = runner.debug_runto_ret(&mut cpu, &mut dev); see(&d); ("[]".into(), format!("[{},{}]", shown(&d, &cpu), t)) }
            7 => {
                let v = visits(&cpu, &dev.h, now, 60);
                let mut b: Vec<u16> = (0..r.below(5)).map(|_| match r.below(8) { 0 => 0xFFFF, 1 => 0, 2 => r.word(), 3 => r.pick(&v).wrapping_add(1), _ => v[1.min(v.len() - 1) + r.below(v.len().max(2) as u64 - 1) as usize] }).collect();
                if r.chance(1, 8) { b.push(cpu.get_pc()) }
                b.sort();
                b.dedup();
                *brk.borrow_mut() = js(&b);
                let (i, t) = runner.run_until_brkpt(&mut cpu, &mut dev, &b);
                (js(&b), format!("[{},{}]", i.map(|i| i as i64).unwrap_or(-1), t))
            }
            8 => {
                let d = runner.debug_preview(&cpu, &dev.h);
                let b: Vec<u8> = (0..5).map(|i| dev.h.peek(cpu.get_pc().wrapping_add(i))).collect();
                (js(&b), format!("[{},\"{}\"]", texts(&d), Preview::of(&d)))
            }
            _ => {
                let mut v = gen_vec(r);
                if r.chance(1, 3) { v[14] = 0x8000 }
                v[25] = 0;
                cpu = make::<F>(&v);
                (js(&cpu.clone().vec().to_vec()), "[]".into())
            }
        })) {
            Ok(x) => x,
            Err(_) => (if op == 7 { brk.borrow().clone() } else { "[]".to_string() }, "panic".to_string()),
        };
        let ev = dev.h.log.borrow().clone();
        let inp: Vec<i64> = ev.iter().filter(|e| matches!(e[0], 1 | 2 | 3 | 5 | 7)).map(|e| e[2]).collect();
        let line: Vec<(i64, i64)> = dev.h.line.iter().map(|l| (l.0 - dev.h.off, l.1 - dev.h.off)).filter(|l| l.1 > 0).collect();
        if let Some(e) = ev.iter().rev().find(|e| e[3] != 0) { now = e[3] as Ts }
        let panicked = res == "panic";
        let (op, res) = if panicked { (-1, format!("[{}]", op)) } else { (op, res) };
        let near: Vec<u8> = (0..4).map(|i| dev.h.peek(at.get().wrapping_add(i))).collect();
        calls.push(format!("[{},{},{},{},{},{},{},[{},{}]]", op, arg, js(&line), js(&inp), res, js(&cpu.vec().to_vec()), js(&ev), at.get(), js(&near)));
        if panicked { break }
    }
    let _ = dev.h.next;
    format!("[{},{},{},{},[{}]]", fl, hz, frame, js(&dev.h.waits.to_vec()), calls.join(","))
}

fn valid<const E: u32>(hz: u32) -> String { format!("[-1,{},{},{}]", hz, E, FrameRunner::<E, 50>::clock_is_valid(hz) as u8) }

pub fn run(args: &Args) {
    let mut r = Rng::new(args.num("seed", 1).wrapping_mul(0x51) ^ 0x5255_4E);
    let mut w = Shards::new(args);
    let len = args.num("len", 40) as usize;
    for i in 0..args.num("n", 100) {
        let s = match i % 5 {
            0 => history::<NMOS, 1, 4>(&mut r, 0, len),
            1 => history::<CMOS, 10, 10>(&mut r, 1, len),
            2 => history::<BM1, 5, 6>(&mut r, 2, len),
            3 => history::<NMOS, 3, 25>(&mut r, 0, len),
            _ => history::<NMOS, 2, 5>(&mut r, 0, len),
        };
        writeln!(w.next(), "{}", s).unwrap();
        if i % 8 == 0 {
            let k = r.below(400) as u32;
            let s = match r.below(3) { 0 => valid::<1>(k), 1 => valid::<10>(k * if r.chance(1, 2) { 10 } else { 1 }), _ => valid::<7>(k * if r.chance(1, 2) { 7 } else { 1 }) };
            writeln!(w.next(), "{}", s).unwrap();
        }
    }
}
