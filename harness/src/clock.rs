//! Recorded histories of the ready-made clock and calls of default host methods.
use crate::rng::Rng;
use crate::steps::*;
use crate::wrap::*;
use core::num::{NonZeroU16, NonZeroU8, Wrapping};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::host::{cycles, TsCounter};
use z80emu::*;

/// 16-bit limbs, least significant first.
trait Num: Copy + PartialEq + PartialOrd + Ord + From<u8> + From<u16> + Default + std::fmt::Display + std::fmt::Debug {
    const LIMBS: usize;
    const SIGNED: i64;
    fn limbs(self) -> Vec<i64>;
    fn of(l: &[i64]) -> Self;
}
macro_rules! num {
    ($($t:ty: $n:expr, $s:expr;)*) => { $(impl Num for $t {
        const LIMBS: usize = $n;
        const SIGNED: i64 = $s;
        fn limbs(self) -> Vec<i64> { self.to_le_bytes().chunks(2).map(|c| c[0] as i64 + c[1] as i64 * 256).collect() }
        fn of(l: &[i64]) -> Self {
            let b: Vec<u8> = l.iter().flat_map(|x| [*x as u8, (*x >> 8) as u8]).collect();
            <$t>::from_le_bytes(b.try_into().unwrap())
        }
    })* }
}
num! { u16: 1, 0; u32: 2, 0; i32: 2, 1; u64: 4, 0; i64: 4, 1; usize: 4, 0; u128: 8, 0; i128: 8, 1; }

fn value(r: &mut Rng, n: usize) -> Vec<i64> {
    match r.below(5) {
        0 => (0..n).map(|i| if i == n - 1 { 0x7FFF } else { 0xFFFF }).collect(),
        1 => (0..n).map(|_| 0xFFFF).collect(),
        2 => (0..n).map(|i| if i == n - 1 { r.pick(&[0i64, 0x8000]) } else { 0 }).collect(),
        3 => (0..n).map(|i| if i == 0 { 0xFFF0 } else { r.pick(&[0i64, 0xFFFF, 0x7FFF]) }).collect(),
        _ => (0..n).map(|_| r.word() as i64).collect(),
    }
}
/// Something near the current value.
fn near(r: &mut Rng, cur: &[i64]) -> Vec<i64> {
    let mut v = cur.to_vec();
    let i = if r.chance(2, 3) { 0 } else { r.below(v.len() as u64) as usize };
    v[i] = (v[i] + r.pick(&[0, 0, 1, -1, 2, 0x8000])) & 0xFFFF;
    v
}

fn history<T: Num>(r: &mut Rng, len: u64) -> String
where TsCounter<T>: Clock<Limit = T, Timestamp = T> + serde::Serialize + serde::de::DeserializeOwned,
{
    let init = value(r, T::LIMBS);
    let mut t: TsCounter<T> = T::of(&init).into();
    let mut ops: Vec<String> = Vec::new();
    for _ in 0..len {
        let k = r.below(17) as i64;
        let addr = r.word();
        let n = match k { 4 => r.byte().max(1) as i64, 5 => (r.word().max(1)) as i64, _ => 0 };
        let arg = match k { 7 | 12 => if r.chance(3, 4) { near(r, &t.as_timestamp().limbs()) } else { value(r, T::LIMBS) },
                            8 | 9 | 10 | 15 => value(r, T::LIMBS), _ => vec![] };
        let route = r.below(4);
        let res = catch_unwind(AssertUnwindSafe(|| {
            macro_rules! on { ($c:ident, $e:expr) => { match route {
                0 => { let $c = &mut t; $e }
                1 => { let $c = &mut K1(&mut t); $e }
                2 => { let $c = &mut K2 { clk: K1(&mut t) }; $e }
                _ => { let $c = &mut K3(K1(&mut t)); $e }
            } } }
            match k {
                0 => on!(c, c.add_m1(addr)).limbs(),
                1 => on!(c, c.add_mreq(addr)).limbs(),
                2 => on!(c, c.add_io(addr)).limbs(),
                3 => on!(c, c.add_irq(addr)).limbs(),
                4 => { on!(c, c.add_no_mreq(addr, NonZeroU8::new(n as u8).unwrap())); vec![] }
                5 => { on!(c, c.add_wait_states(addr, NonZeroU16::new(n as u16).unwrap())); vec![] }
                6 => on!(c, c.as_timestamp()).limbs(),
                7 => vec![on!(c, c.is_past_limit(T::of(&arg))) as i64],
                8 => { t = TsCounter::from(T::of(&arg)); vec![] }
                9 => { t = TsCounter::from(Wrapping(T::of(&arg))); vec![] }
                10 => { *t = Wrapping(T::of(&arg)); vec![] }
                11 => {
                    let s = serde_json::to_string(&t).unwrap();
                    let a: TsCounter<T> = serde_json::from_str(&s).unwrap();
                    let b: TsCounter<T> = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap();
                    // saved as the plain number
                    if a == b && s == a.as_timestamp().to_string() { a.as_timestamp().limbs() } else { vec![] }
                }
                12 => { let o = TsCounter::from(T::of(&arg)); vec![t.cmp(&o) as i64 + 1, (t == o) as i64] }
                13 => (*t).0.limbs(),
                14 => t.0 .0.limbs(),
                15 => { t.0 = Wrapping(T::of(&arg)); vec![] }
                _ => if route == 0 { t = TsCounter::default(); t.clone().as_timestamp().limbs() } else { let u = t; u.as_timestamp().limbs() },
            }
        }));
        let res = res.unwrap_or_else(|_| vec![-1]);
        let k = if k == 16 && route != 0 { 6 } else { k };
        ops.push(format!("[{},{},{},{},{}]", k, n, ints(&arg), ints(&res), ints(&t.as_timestamp().limbs())));
    }
    format!("[\"clk\",{},{},{},[{}]]", T::LIMBS, T::SIGNED, ints(&init), ops.join(","))
}

struct Bare<T>(core::marker::PhantomData<T>);
impl<T> Io for Bare<T> { type Timestamp = T; type WrIoBreak = u8; type RetiBreak = u8; }
impl<T> Memory for Bare<T> { type Timestamp = T; }
struct Peek(u64);
impl Memory for Peek {
    type Timestamp = i32;
    fn read_debug(&self, a: u16) -> u8 { crate::rng::mem_byte(self.0, a, 0) }
}
/// Opcode fetches and data reads overridden differently: the others keep their defaults.
struct Part(u64);
impl Memory for Part {
    type Timestamp = i32;
    fn read_debug(&self, a: u16) -> u8 { crate::rng::mem_byte(self.0, a, 0) }
    fn read_mem(&self, a: u16, _: i32) -> u8 { !crate::rng::mem_byte(self.0, a, 0) }
}
fn w(n: Option<NonZeroU16>) -> i64 { n.map(|n| n.get() as i64).unwrap_or(0) }
fn b<T>(n: Option<T>) -> i64 { n.is_some() as i64 }

fn default_call(r: &mut Rng) -> String {
    let which = r.below(4) as i64;
    let f = if which >= 2 { 5 + r.below(5) as i64 } else { r.below(10) as i64 };
    let (a, d, seed) = (r.word(), r.byte(), r.next());
    let ts = r.word() as i32;
    let m = [crate::rng::mem_byte(seed, a, 0) as i64, crate::rng::mem_byte(seed, a.wrapping_add(1), 0) as i64];
    let res = catch_unwind(AssertUnwindSafe(|| {
        macro_rules! mem { ($h:expr, $t:expr) => { match f {
            5 => vec![$h.read_mem(a, $t) as i64],
            6 => vec![$h.read_mem16(a, $t) as i64],
            7 => vec![$h.read_opcode(a, a ^ ts as u16, $t) as i64],
            8 => vec![$h.read_debug(a) as i64],
            _ => { $h.write_mem(a, d, $t); vec![$h.read_debug(a) as i64] }
        } } }
        macro_rules! io { ($h:expr, $t:expr) => { match f {
            0 => { let (v, n) = $h.read_io(a, $t); vec![v as i64, w(n)] }
            1 => { let (v, n) = $h.write_io(a, d, $t); vec![b(v), w(n)] }
            2 => vec![$h.is_irq($t) as i64],
            3 => { let (v, n) = $h.irq_data(a, $t); vec![v as i64, w(n)] }
            4 => vec![b($h.reti(a, $t))],
            _ => mem!($h, $t),
        } } }
        match which {
            0 => { let mut h = Bare::<i32>(Default::default()); io!(h, ts) }
            1 => { let mut h = Bare::<u128>(Default::default()); io!(h, ts as u32 as u128) }
            2 => { let mut h = Peek(seed); mem!(h, ts) }
            _ => { let mut h = Part(seed); mem!(h, ts) }
        }
    }));
    format!("[\"def\",{},{},{},{},{},{}]", which, f, a, d, ints(&m), ints(&res.unwrap_or_else(|_| vec![-1])))
}

pub fn run(args: &crate::Args) {
    let mut r = Rng::new(args.num("seed", 1).wrapping_mul(0x31) ^ 0x434C_4F43);
    let mut w = crate::Shards::new(args);
    let len = args.num("len", 40);
    writeln!(w.next(), "[\"cyc\",[{},{},{},{},{},{}]]", cycles::M1_CYCLE_TS, cycles::MEMRW_CYCLE_TS, cycles::IO_IORQ_LOW_TS, cycles::IO_CYCLE_TS,
        cycles::INT_IORQ_LOW_TS, cycles::IRQ_ACK_CYCLE_TS).unwrap();
    for i in 0..args.num("n", 1000) {
        let s = match i % 8 {
            0 => history::<u16>(&mut r, len),
            1 => history::<u32>(&mut r, len),
            2 => history::<i32>(&mut r, len),
            3 => history::<u64>(&mut r, len),
            4 => history::<i64>(&mut r, len),
            5 => history::<usize>(&mut r, len),
            6 => history::<u128>(&mut r, len),
            _ => history::<i128>(&mut r, len),
        };
        writeln!(w.next(), "{}", s).unwrap();
        for _ in 0..args.num("defs", 8) { let s = default_call(&mut r); writeln!(w.next(), "{}", s).unwrap() }
    }
}
