//! Histories of host calls on the whole bus: memory, CTC, PIO.
use crate::rng::{mix, Rng};
use crate::{Args, Shards};
use ral1243::bus::{Bus, BusDevice, MemoryControl, Terminator};
use ral1243::ctc::{Ctc, CtcTrigger};
use ral1243::ctc_trigger::{CtcActive, CtcPassive};
use ral1243::memory::{Memory, Rom};
use ral1243::pio::{Pio, PioDevice};
use ral1243::pio_device::{PioInput, PioOutput};
use ral1243::{PioSink, PioStream, Ts};
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use z80emu::{Io, Memory as _};

/// (who, what, value, time, answer)
#[derive(Default)]
struct Seen { calls: Vec<String>, seed: u64, n: u64, eager: u64 }
type Log = Rc<RefCell<Seen>>;
impl Seen {
    fn note(&mut self, who: u32, what: &str, v: u8, ts: Ts, ans: i32) { self.calls.push(format!("[{},\"{}\",{},{},{}]", who, what, v, ts, ans)) }
    fn roll(&mut self) -> u64 { self.n += 1; mix(self.seed ^ self.n << 20) >> 13 }
    fn data(&mut self) -> Option<u8> { let r = self.roll(); if r % 100 < self.eager { Some((r >> 20) as u8) } else { None } }
    fn yes(&mut self) -> bool { self.roll() % 100 < self.eager }
}

/// A CTC trigger line: listed edges or the ready-made ones.
enum Line { List { ev: Vec<(Ts, bool)>, who: u32, log: Log }, Active(CtcActive<4>), Passive(CtcPassive<4>) }
impl CtcTrigger for Line {
    type Timestamp = Ts;
    fn next_clk_trg(&mut self, rising: bool, ts: Ts) -> Result<Ts, Ts> {
        match self {
            Line::List { ev, .. } => {
                while let Some(&(t, r)) = ev.first() {
                    if t > ts { break }
                    ev.remove(0);
                    if r == rising { return Ok(t) }
                }
                Err(ev.iter().find(|e| e.1 == rising).map(|e| e.0).unwrap_or(Ts::MAX))
            }
            Line::Active(t) => t.next_clk_trg(rising, ts),
            Line::Passive(t) => t.next_clk_trg(rising, ts),
        }
    }
    fn purge_clk_trg(&mut self, ts: Ts) -> Ts {
        match self {
            Line::List { ev, .. } => { ev.retain(|e| e.0 > ts); ev.first().map(|e| e.0).unwrap_or(Ts::MAX) }
            Line::Active(t) => t.purge_clk_trg(ts),
            Line::Passive(t) => t.purge_clk_trg(ts),
        }
    }
    fn zc_to_pulse(&mut self, ts: Ts) {
        match self {
            Line::List { who, log, .. } => log.borrow_mut().note(*who, "zc", 0, ts, 0),
            Line::Active(t) => t.zc_to_pulse(ts),
            Line::Passive(t) => t.zc_to_pulse(ts),
        }
    }
    fn next_second(&mut self, d: Ts) {
        match self {
            Line::List { ev, .. } => for e in ev { e.0 = e.0.saturating_sub(d) },
            Line::Active(t) => t.next_second(d),
            Line::Passive(t) => t.next_second(d),
        }
    }
}

struct Tap(Log);
impl PioStream for Tap {
    fn slurp(&mut self) -> Option<u8> { let mut l = self.0.borrow_mut(); let a = l.data(); l.note(5, "slurp", 0, 0, a.map(i32::from).unwrap_or(-1)); a }
}
impl PioSink for Tap {
    fn flush(&mut self, v: u8) -> bool { let mut l = self.0.borrow_mut(); let a = l.yes(); l.note(6, "flush", v, 0, a as i32); a }
}
enum Peer { Rec(u32, Log), In(PioInput<Tap>), Out(PioOutput<Tap>) }
macro_rules! peer { ($s:expr, $d:ident => $e:expr, $w:ident, $l:ident => $r:expr) => { match $s { Peer::Rec($w, $l) => { let mut $l = $l.borrow_mut(); $r } Peer::In($d) => $e, Peer::Out($d) => $e } } }
impl PioDevice for Peer {
    type Timestamp = Ts;
    fn set_floating_bus(&mut self, ts: Ts) { peer!(self, d => d.set_floating_bus(ts), w, l => l.note(*w, "float", 0, ts, 0)) }
    fn ready(&mut self, ts: Ts) { peer!(self, d => d.ready(ts), w, l => l.note(*w, "ready", 0, ts, 0)) }
    fn try_sample_data(&mut self, ts: Ts) -> Option<u8> {
        peer!(self, d => d.try_sample_data(ts), w, l => { let a = l.data(); l.note(*w, "sample", 0, ts, a.map(i32::from).unwrap_or(-1)); a })
    }
    fn set_bus_data(&mut self, v: u8, ts: Ts) { peer!(self, d => d.set_bus_data(v, ts), w, l => l.note(*w, "drive", v, ts, 0)) }
    fn ready_with_data(&mut self, v: u8, ts: Ts) { peer!(self, d => d.ready_with_data(v, ts), w, l => l.note(*w, "give", v, ts, 0)) }
    fn was_strobe(&mut self, ts: Ts) -> bool {
        peer!(self, d => d.was_strobe(ts), w, l => { let a = l.yes(); l.note(*w, "strobe", 0, ts, a as i32); a })
    }
}
type Chain = Ctc<Ts, Line, Line, Line, Line, Pio<Ts, Peer, Peer, Terminator<Ts>>>;

fn rom(len: usize, k: usize) -> Vec<u8> { (0..len).map(|a| (a * 13 + k * 7 + a / 256) as u8).collect() }

pub fn run(a: &Args) {
    let (n, len, seed) = (a.num("n", 100), a.num("len", 60), a.num("seed", 1));
    let focus = a.get("focus", "mix");
    let mut out = Shards::new(a);
    for k in 0..n {
        let mut r = Rng::new(mix(seed) ^ k << 8 ^ focus.len() as u64);
        writeln!(out.next(), "{}", history(&mut r, &focus, len)).unwrap();
    }
}

const EDGE: [u16; 22] = [0, 1, 2, 0x1FFE, 0x1FFF, 0x2000, 0x2001, 0x3FFE, 0x3FFF, 0x4000, 0x4001, 0x43FE, 0x43FF, 0x4400, 0x4401, 0xBFFF, 0xC000, 0xFFFD, 0xFFFE, 0xFFFF, 0x8000, 0x2100];

fn history(r: &mut Rng, focus: &str, len: u64) -> String {
    let kb = r.pick(&[0u64, 1, 2, 16, 47, 48]) as usize;
    let romk = r.below(30) as usize;
    let romlen = r.pick(&[0usize, 1, 100, 8191, 8192, 8192]);
    // the ports of the ral1243 itself, or any others that satisfy with_port_bits
    let mut ports: Vec<u32> = vec![0xFF, 124, 0xFC, 4, 1, 0, 0xFC, 8, 1, 0];
    if r.chance(1, 3) {
        let m = r.word() as u32; ports[0] = m; ports[1] = m & r.word() as u32;
        for b in [2usize, 6] {
            let (s1, s0) = (r.below(16) as u32, r.below(15) as u32);
            let s0 = if s0 >= s1 { s0 + 1 } else { s0 };
            let m = (r.word() & r.word()) as u32 & !(1 << s1) & !(1 << s0);
            ports[b] = m; ports[b + 1] = m & r.word() as u32; ports[b + 2] = s1; ports[b + 3] = s0;
        }
    }
    let dev = if focus == "pio" || focus == "mix" { r.below(2) } else { 0 };
    let chain = if focus == "chain" { true } else { focus != "ctc" && r.chance(1, 2) };
    let half = r.pick(&[40u32, 60, 100, 170, 200, 350]);
    let period = if chain { half * 2 } else { 0 };
    let delta: Ts = if chain { period * (1 + 140000 / period) } else { 140000 };
    let mut ts: Ts = delta + r.below(delta as u64 + 3000) as Ts;
    if chain && r.chance(1, 3) { ts = r.below(300) as Ts }
    let log: Log = Rc::new(RefCell::new(Seen { seed: r.next(), eager: r.pick(&[10u64, 40, 70]), ..Default::default() }));
    let mut lists: Vec<Vec<(Ts, bool)>> = Vec::new();
    for _ in 0..4 {
        let mut t = ts.saturating_sub(50);
        let gap = r.pick(&[3u64, 40, 40, 300, 2000]);
        let mut up = r.chance(1, 2);
        lists.push((0..if chain { 0 } else { r.below(60) }).map(|_| { t += 1 + r.below(gap) as Ts; up = !up; (t, up) }).collect());
    }
    let cfg = format!("[{},[{},{}],{:?},{},{},[{}]]", kb, romlen, romk, ports, dev, period,
        lists.iter().map(|l| format!("[{}]", l.iter().map(|e| format!("[{},{}]", e.0, e.1 as u8)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut lines: Vec<Line> = if chain {
        let (x, y) = (CtcActive::new(period), CtcActive::new(period));
        let (xp, yp) = (x.new_passive(), y.new_passive());
        vec![Line::Active(x), Line::Passive(xp), Line::Active(y), Line::Passive(yp)]
    } else { lists.into_iter().enumerate().map(|(i, ev)| Line::List { ev, who: i as u32 + 1, log: log.clone() }).collect() };
    let peers = if dev == 0 { (Peer::Rec(5, log.clone()), Peer::Rec(6, log.clone())) } else { (Peer::In(PioInput::new(Tap(log.clone()))), Peer::Out(PioOutput::new(Tap(log.clone())))) };
    let p = |i: usize| ports[i] as u16;
    let pio = Pio::new(peers.0, peers.1, Terminator::new()).with_port_bits(p(6), p(7), ports[8], ports[9]);
    let l3 = lines.pop().unwrap(); let l2 = lines.pop().unwrap(); let l1 = lines.pop().unwrap(); let l0 = lines.pop().unwrap();
    let ctc: Chain = Ctc::new(l0, l1, l2, l3, pio).with_port_bits(p(2), p(3), ports[4], ports[5]);
    let mut bus = Bus::new(ctc, Memory::new(&rom(romlen, romk), kb)).with_port_bits(p(0), p(1));
    let mut calls: Vec<String> = Vec::new();
    let mut const_due = [0u8; 4];
    let ctc_port = |c: u32| p(3) | (c as u16 >> 1) << ports[4] | (c as u16 & 1) << ports[5];
    let pio_port = |n: u32, ctl: u32| p(7) | (n as u16) << ports[8] | (ctl as u16) << ports[9];
    let r_big = r.pick(&[300u64, 3000, 20000]);
    let mut since = 0u32;
    let mut pending: Option<Vec<(String, i64, i64)>> = None;
    for k in 0..len {
        let step = match r.below(20) { 0 => 0, 1..=15 => 1 + r.below(23), 16 | 17 => 1 + r.below(90), _ => if chain { 1 + r.below(60) } else { 1 + r.below(r_big) } };
        ts += step as Ts;
        since += step as u32;
        let which = if k == 0 && r.chance(3, 4) { 100 } else { r.below(100) };
        let mem_call = |r: &mut Rng| -> (String, i64, i64) {
            let ad = if r.chance(3, 4) { r.pick(&EDGE) } else { r.word() } as i64;
            match r.below(14) {
                0..=2 => ("fetch".into(), ad, 0),
                3 | 4 => ("rd".into(), ad, 0),
                5 | 6 => ("rd16".into(), ad, 0),
                7 | 8 => ("wr".into(), ad, r.byte() as i64),
                9 => ("dbg".into(), ad, r.below(6) as i64),
                10 => ("out".into(), p(1) as i64, if r.chance(4, 5) { r.below(4) as i64 } else { r.byte() as i64 }),
                11 => ("in".into(), p(1) as i64, 0),
                12 => ("attach".into(), r.pick(&[0i64, 5, 8191, 8192]), r.below(50) as i64),
                _ => match r.below(6) { 0 => ("eject".into(), 0, 0), 1 => ("many".into(), r.pick(&[1i64, 3, 255, 256, 300]), r.below(50) as i64), 2 => ("slots".into(), 0, 0), _ => ("fetch".into(), ad, 0) },
            }
        };
        let (name, x, mut y) = if let Some(q) = &mut pending {
            let e = q.remove(0);
            if q.is_empty() { pending = None }
            e
        } else if which == 100 { ("reset".to_string(), 0, 0) }
        else if chain && since > 60 { ("fetch".to_string(), r.word() as i64, 0) }
        else if which == 99 && ts > 2 * delta + 200 { pending = Some(vec![("sec".into(), delta as i64, 0)]); ("fend".to_string(), 0, 0) }
        else if focus == "mem" || (focus == "mix" && which < 30) {
            let e = mem_call(r);
            if e.0 == "attach" && bus.memory_ref().free_exrom_slots() == 0 { ("slots".to_string(), 0, 0) } else { e }
        } else {
            match r.below(20) {
                0..=3 => ("fetch".to_string(), r.pick(&[0i64, 0x2000, 0x4000]), 0),
                4..=6 => ("irq".to_string(), 0, 0),
                7 => if r.chance(5, 6) { pending = Some(vec![("ack".into(), r.word() as i64, 0)]); ("irq".to_string(), 0, 0) } else { ("ack".to_string(), r.word() as i64, 0) },
                8 => ("reti".to_string(), r.word() as i64, 0),
                9 => if r.chance(1, 10) { ("reset".to_string(), 0, 0) } else { ("fend".to_string(), 0, 0) },
                10 => { let q = r.word() as i64; if r.chance(1, 2) { ("in".to_string(), q, 0) } else { let v = safe(r, &ports, q as u32); ("out".to_string(), q, v) } }
                11..=19 => {
                    let to_pio = focus == "pio" || (focus == "mix" && r.chance(1, 2));
                    if to_pio {
                        match r.below(10) {
                            0..=2 => ("in".to_string(), pio_port(r.below(2) as u32, 0) as i64, 0),
                            3 | 4 => ("out".to_string(), pio_port(r.below(2) as u32, 0) as i64, r.byte() as i64),
                            _ => { let q = pio_port(r.below(2) as u32, 1) as u32; (("out".to_string()), q as i64, pio_ctl(r)) }
                        }
                    } else {
                        let c = r.below(4) as u32;
                        if r.chance(3, 10) { ("in".to_string(), ctc_port(c) as i64, 0) }
                        else if const_due[c as usize] == 1 {
                            let v = if chain && c % 2 == 1 { 1 + r.below(3) as i64 } else if chain { { let m = r.pick(&[4, 60]); 6 + r.below(m) as i64 } } else if r.chance(2, 3) { r.below(6) as i64 } else { r.byte() as i64 };
                            ("out".to_string(), ctc_port(c) as i64, v)
                        } else {
                            let mut v = (r.next() >> 30) as u8 | 1;
                            if r.chance(3, 4) { v |= 0x80 }
                            if r.chance(1, 2) { v |= 4 }
                            if r.chance(1, 12) { v &= 0xFE }
                            // prescaler 16 twice as often as not
                            if r.chance(1, 2) { v &= !0x20 }
                            // the next channel of a chain mostly counts
                            if chain && c % 2 == 1 && r.chance(2, 3) { v |= 0x40 }
                            if chain && c % 2 == 0 && r.chance(2, 3) { v &= !0x68 }
                            ("out".to_string(), ctc_port(c) as i64, v as i64)
                        }
                    }
                }
                _ => unreachable!(),
            }
        };
        if name == "sec" { ts -= delta; }
        if name == "fetch" || name == "irq" || name == "fend" { since = 0 }
        // which constants the CTC waits for, as far as the generator needs to know
        if name == "out" {
            let q = x as u32;
            if q & ports[0] != ports[1] && q & ports[2] == ports[3] {
                let c = ((q >> ports[4] & 1) * 2 + (q >> ports[5] & 1)) as usize;
                if const_due[c] == 1 {
                    const_due[c] = 0;
                    // a chain holds no more pulses than its documented capacity
                    if chain && c % 2 == 0 && (1..6).contains(&y) { y += 6 }
                } else if y & 5 == 5 { const_due[c] = 1 }
            }
        }
        if name == "reset" { const_due = [0; 4] }
        let res = catch_unwind(AssertUnwindSafe(|| call(&mut bus, &name, x, y, ts)));
        let seen = std::mem::take(&mut log.borrow_mut().calls);
        let shown = match &res { Ok(s) => s.clone(), Err(_) => "-999".to_string() };
        calls.push(format!("[\"{}\",{},{},{},{},[{}]]", name, x, y, ts, shown, seen.join(",")));
        if res.is_err() { break }
    }
    format!("[{},[{}]]", cfg, calls.join(","))
}

fn pio_ctl(r: &mut Rng) -> i64 {
    let v = r.byte() as i64;
    match r.below(8) {
        0 => v & 0xFE,
        1..=3 => (v & 0x70) | 3 | 0x80,
        4 => (v & 0x70) | 3,
        5 | 6 => (v & 0x30) | 0x0F | (r.below(2) as i64) << 6,
        _ => (v & 0xF0) | r.pick(&[1i64, 5, 9, 11, 13]),
    }
}
/// a value for any port that no device rejects as unsupported
fn safe(r: &mut Rng, ports: &[u32], q: u32) -> i64 {
    let pio = q & ports[0] != ports[1] && q & ports[2] != ports[3] && q & ports[6] == ports[7];
    if pio { pio_ctl(r) } else { r.byte() as i64 }
}

fn call(bus: &mut Bus<Chain, Memory>, name: &str, x: i64, y: i64, ts: Ts) -> String {
    let (a, v) = (x as u16, y as u8);
    let num = |v: i64| v.to_string();
    let odd = || "-5".to_string();      // a wait state or break request nobody makes
    match name {
        "fetch" => num(bus.read_opcode(a, 0, ts) as i64),
        "rd" => { let v = bus.read_mem(a, ts); if v == bus.read_debug(a) { num(v as i64) } else { odd() } }
        "rd16" => num(bus.read_mem16(a, ts) as i64),
        "wr" => { bus.write_mem(a, v, ts); num(0) }
        "dbg" => format!("{:?}", bus.memory_ref().memory_debug(a..a.saturating_add(y as u16))),
        "in" => match bus.read_io(a, ts) { (v, None) => num(v as i64), _ => odd() },
        "out" => match bus.write_io(a, v, ts) { (None, None) => num(0), _ => odd() },
        "irq" => num(bus.is_irq(ts) as i64),
        "ack" => match bus.irq_data(a, ts) { (v, None) => num(v as i64), _ => odd() },
        "reti" => match bus.reti(a, ts) { None => num(0), _ => odd() },
        "reset" => { bus.reset(ts); num(0) }
        "fend" => { bus.frame_end(ts); num(0) }
        "sec" => { bus.next_second(x as Ts); num(0) }
        "attach" => num(bus.memory_mut().attach_exrom(Memory::make_rom(&rom(x as usize, y as usize))) as i64),
        "many" => {
            let v: Vec<Rom> = (0..x as usize).map(|i| Memory::make_rom(&rom(8192, y as usize + i + 1))).collect();
            num(bus.memory_mut().attach_exroms(v) as i64)
        }
        "eject" => num(bus.memory_mut().eject_exroms().len() as i64),
        "slots" => num(bus.memory_ref().free_exrom_slots() as i64),
        _ => panic!("{}", name),
    }
}
