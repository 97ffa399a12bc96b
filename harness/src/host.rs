//! Recording host: memory, I/O and clock that log every call made by the CPU.
use core::num::{NonZeroU16, NonZeroU8};
use std::cell::RefCell;
use std::collections::HashMap;
use z80emu::{Clock, Io, Memory};

#[derive(Clone, Copy, Default, Debug)]
pub struct Env {
    pub cont: u32,
    pub irq: i64,
    pub iv: u8,
    pub iw: u16,
    pub pv: u8,
    pub pw: u16,
    pub ow: u16,
    pub ob: i64,
    pub rb: i64,
}
impl Env {
    pub fn json(&self) -> String {
        format!("[{},{},{},{},{},{},{}]", self.cont, self.irq, self.iw, self.pw, self.ow, self.ob, self.rb)
    }
}

/// How the IRQ line behaves over time.
#[derive(Clone, Debug)]
pub enum Line {
    /// as `Env::irq`
    Const,
    /// asserted inside the given `[from, to)` intervals
    At(Vec<(i64, i64)>),
    /// asserted from the given time until acknowledged, repeatedly
    UntilAck(Vec<i64>),
}

pub struct Host {
    pub seed: u64,
    pub over: HashMap<u16, u8>,
    pub env: Env,
    pub line: Line,
    pub acks: usize,
    pub log: RefCell<Vec<[i64; 5]>>,
    pub polls: Vec<(i64, bool)>,
    pub calls: RefCell<u64>,
    pub max_calls: u64,
    /// bit i of these makes the i-th OUT / RETI request a break (sequence runs)
    pub ob_mask: u64,
    pub rb_mask: u64,
    pub outs: u32,
    pub retis: u32,
    pub iv_seq: Vec<u8>,
    /// timestamp offset removed from logged values
    pub quiet: bool,
    /// how unwritten memory looks: 0 arbitrary, 1 program-like, 2 interrupt-heavy program
    pub mode: u8,
}

impl Host {
    pub fn new(seed: u64, env: Env) -> Self {
        Host {
            seed, over: HashMap::new(), env, line: Line::Const, acks: 0,
            log: RefCell::new(Vec::new()), polls: Vec::new(), calls: RefCell::new(0), max_calls: 4000,
            ob_mask: 0, rb_mask: 0, outs: 0, retis: 0, iv_seq: Vec::new(), quiet: false, mode: 0,
        }
    }
    pub fn copy(&self) -> Self {
        Host { seed: self.seed, over: self.over.clone(), env: self.env, line: self.line.clone(), acks: self.acks,
            log: RefCell::new(Vec::new()), polls: Vec::new(), calls: RefCell::new(0), max_calls: self.max_calls, ob_mask: self.ob_mask,
            rb_mask: self.rb_mask, outs: self.outs, retis: self.retis, iv_seq: self.iv_seq.clone(), quiet: self.quiet, mode: self.mode }
    }
    pub fn peek(&self, addr: u16) -> u8 {
        match self.over.get(&addr) {
            Some(v) => *v,
            None => crate::rng::mem_byte(self.seed, addr, self.mode),
        }
    }
    pub fn poke(&mut self, addr: u16, v: u8) { self.over.insert(addr, v); }
    pub fn load(&mut self, addr: u16, bytes: &[u8]) {
        for (i, b) in bytes.iter().enumerate() { self.poke(addr.wrapping_add(i as u16), *b) }
    }
    fn ev(&self, e: [i64; 5]) {
        let mut c = self.calls.borrow_mut();
        *c += 1;
        if *c > self.max_calls { panic!("runaway: too many host calls"); }
        if !self.quiet { self.log.borrow_mut().push(e); }
    }
    pub fn clear(&mut self) {
        self.log.borrow_mut().clear();
        self.polls.clear();
        *self.calls.borrow_mut() = 0;
    }
    pub fn line_at(&self, ts: i64) -> bool {
        match &self.line {
            Line::Const => self.env.irq != 0,
            Line::At(v) => v.iter().any(|(a, b)| ts >= *a && ts < *b),
            Line::UntilAck(v) => match v.get(self.acks) { Some(t) => ts >= *t, None => false },
        }
    }
}

impl Memory for Host {
    type Timestamp = i64;
    fn read_debug(&self, addr: u16) -> u8 {
        let v = self.peek(addr);
        self.ev([9, addr as i64, v as i64, 0, 0]);
        v
    }
    fn read_mem(&self, addr: u16, ts: i64) -> u8 {
        let v = self.peek(addr);
        self.ev([2, addr as i64, v as i64, ts, 0]);
        v
    }
    fn read_mem16(&self, addr: u16, ts: i64) -> u16 {
        let v = u16::from_le_bytes([self.peek(addr), self.peek(addr.wrapping_add(1))]);
        self.ev([3, addr as i64, v as i64, ts, 0]);
        v
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: i64) -> u8 {
        let v = self.peek(pc);
        self.ev([1, pc as i64, v as i64, ts, ir as i64]);
        v
    }
    fn write_mem(&mut self, addr: u16, value: u8, ts: i64) {
        self.ev([4, addr as i64, value as i64, ts, 0]);
        self.poke(addr, value);
    }
}

impl Io for Host {
    type Timestamp = i64;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn is_irq(&mut self, ts: i64) -> bool {
        let r = self.line_at(ts);
        if self.polls.len() < 100_000 { self.polls.push((ts, r)); }
        r
    }
    fn irq_data(&mut self, pc: u16, ts: i64) -> (u8, Option<NonZeroU16>) {
        let v = if self.iv_seq.is_empty() { self.env.iv } else { self.iv_seq[self.acks % self.iv_seq.len()] };
        self.acks += 1;
        self.ev([7, pc as i64, v as i64, ts, 0]);
        (v, NonZeroU16::new(self.env.iw))
    }
    fn read_io(&mut self, port: u16, ts: i64) -> (u8, Option<NonZeroU16>) {
        self.ev([5, port as i64, self.env.pv as i64, ts, 0]);
        (self.env.pv, NonZeroU16::new(self.env.pw))
    }
    fn write_io(&mut self, port: u16, data: u8, ts: i64) -> (Option<u32>, Option<NonZeroU16>) {
        self.ev([6, port as i64, data as i64, ts, 0]);
        let brk = self.env.ob != 0 || (self.outs < 30 && self.ob_mask >> self.outs & 1 != 0);
        self.outs += 1;
        (if brk { Some(self.outs) } else { None },
         NonZeroU16::new(self.env.ow))
    }
    fn reti(&mut self, addr: u16, ts: i64) -> Option<u32> {
        self.ev([8, addr as i64, 0, ts, 0]);
        let brk = self.env.rb != 0 || (self.retis < 30 && self.rb_mask >> self.retis & 1 != 0);
        self.retis += 1;
        if brk { Some(self.retis + 1_000_000) } else { None }
    }
}

/// The host clock: nominal cycle lengths plus an address-dependent stretch.
#[derive(Clone)]
pub struct Clk {
    pub cur: i64,
    pub cont: u32,
    pub log: Vec<[i64; 3]>,
    pub quiet: bool,
}
impl Clk {
    pub fn new(cur: i64, cont: u32) -> Self { Clk { cur, cont, log: Vec::new(), quiet: false } }
    fn tick(&mut self, kind: i64, addr: u16, n: i64, dur: i64, at: i64) -> i64 {
        let x = if self.cont == 0 || kind == 6 { 0 } else { (addr as i64 / 64 + kind) % (self.cont as i64 + 1) };
        let t0 = self.cur + x;
        self.cur = t0 + dur;
        if !self.quiet { self.log.push([kind, addr as i64, n]); }
        if self.log.len() > 100_000 { panic!("runaway: too many clock calls"); }
        t0 + at
    }
}
impl Clock for Clk {
    type Limit = i64;
    type Timestamp = i64;
    fn is_past_limit(&self, limit: i64) -> bool { self.cur >= limit }
    fn add_irq(&mut self, addr: u16) -> i64 { self.tick(4, addr, 0, 6, 2) }
    fn add_m1(&mut self, addr: u16) -> i64 { self.tick(1, addr, 0, 4, 4) }
    fn add_mreq(&mut self, addr: u16) -> i64 { self.tick(2, addr, 0, 3, 3) }
    fn add_io(&mut self, port: u16) -> i64 { self.tick(3, port, 0, 4, 1) }
    fn add_no_mreq(&mut self, addr: u16, n: NonZeroU8) { self.tick(5, addr, n.get() as i64, n.get() as i64, 0); }
    fn add_wait_states(&mut self, bus: u16, n: NonZeroU16) { self.tick(6, bus, n.get() as i64, n.get() as i64, 0); }
    fn as_timestamp(&self) -> i64 { self.cur }
}
