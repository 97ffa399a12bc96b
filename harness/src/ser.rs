//! Recorded saves and restores of CPUs.
use crate::cpuvec::*;
use crate::host::*;
use crate::rng::Rng;
use crate::steps::*;
use serde_json::Value;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::z80::{BM1, CMOS, NMOS};
use z80emu::*;

/// A saved form as text would give it: fields in order, duplicates possible.
#[derive(Clone)]
enum Doc { Num(i64), Str(String), Arr(Vec<Doc>), Bool(bool), Null, Obj(Vec<(String, Doc)>) }
impl Doc {
    fn of(v: &Value) -> Doc {
        match v {
            Value::Null => Doc::Null,
            Value::Bool(b) => Doc::Bool(*b),
            Value::Number(n) => Doc::Num(n.as_i64().unwrap()),
            Value::String(s) => Doc::Str(s.clone()),
            Value::Array(a) => Doc::Arr(a.iter().map(Doc::of).collect()),
            Value::Object(o) => Doc::Obj(o.iter().map(|(k, v)| (k.clone(), Doc::of(v))).collect()),
        }
    }
    fn json(&self) -> String {
        match self {
            Doc::Null => "null".into(),
            Doc::Bool(b) => b.to_string(),
            Doc::Num(n) => n.to_string(),
            Doc::Str(s) => format!("\"{}\"", s),
            Doc::Arr(a) => format!("[{}]", a.iter().map(Doc::json).collect::<Vec<_>>().join(",")),
            Doc::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("\"{}\":{}", k, v.json())).collect::<Vec<_>>().join(",")),
        }
    }
    /// The form given to the specification, every value tagged with its type.
    fn tagged(&self) -> String {
        match self {
            Doc::Null => "[\"z\",0]".into(),
            Doc::Bool(b) => format!("[\"b\",{}]", *b as u8),
            Doc::Num(n) => format!("[\"n\",{}]", n),
            Doc::Str(s) => format!("[\"s\",\"{}\"]", s),
            Doc::Arr(a) => format!("[\"a\",[{}]]", a.iter().map(Doc::tagged).collect::<Vec<_>>().join(",")),
            Doc::Obj(o) => format!("[\"o\",[{}]]", o.iter().map(|(k, v)| format!("[\"{}\",{}]", k, v.tagged())).collect::<Vec<_>>().join(",")),
        }
    }
    fn obj(&mut self) -> &mut Vec<(String, Doc)> { match self { Doc::Obj(o) => o, _ => panic!() } }
    fn sub(&mut self, k: &str) -> &mut Doc { &mut self.obj().iter_mut().find(|(n, _)| n == k).unwrap().1 }
}

/// Another way of writing the value of a register pair.
fn respell(r: &mut Rng, d: &mut Doc) {
    let w = match d { Doc::Num(n) => (*n & 0xFFFF) as u16, _ => return };
    *d = match r.below(9) {
        0 => Doc::Num(w as i16 as i64),
        1 => Doc::Arr(vec![Doc::Num((w & 255) as i64), Doc::Num((w >> 8) as i64)]),
        2 => Doc::Str(format!("{:x}", w)),
        3 => Doc::Str(format!("0x{:04X}", w)),
        4 => Doc::Str(format!("${:04x}", w)),
        5 => Doc::Str(format!("${:X}", w)),
        6 => Doc::Str(format!("0x{:x}", w)),
        _ => return,
    }
}
/// A value that is not a register pair.
fn spoil(r: &mut Rng) -> Doc {
    match r.below(13) {
        0 => Doc::Num(65536),
        1 => Doc::Num(-32769),
        2 => Doc::Str("10000".into()),
        3 => Doc::Str("".into()),
        4 => Doc::Str("0x".into()),
        5 => Doc::Str("xyz".into()),
        6 => Doc::Arr(vec![]),
        7 => Doc::Arr(vec![Doc::Num(1)]),
        8 => Doc::Arr(vec![Doc::Num(256), Doc::Num(0)]),
        9 => Doc::Arr(vec![Doc::Num(1), Doc::Num(2), Doc::Num(3)]),
        10 => Doc::Bool(true),
        11 => Doc::Num(1_000_000 + r.below(60000) as i64),
        _ => Doc::Str(format!("${:x}", 65536 + r.below(1 << 20))),
    }
}
const PAIRS: [&str; 13] = ["af", "afAlt", "pc", "sp", "memptr", "ir", "regs.bc", "regs.de", "regs.hl", "regsAlt.bc", "regsAlt.hl", "index.ix", "index.iy"];
fn at<'a>(d: &'a mut Doc, path: &str) -> &'a mut Doc {
    match path.split_once('.') { Some((a, b)) => d.sub(a).sub(b), None => d.sub(path) }
}
const SNAKE: [(&str, &str); 3] = [("afAlt", "af_alt"), ("regsAlt", "regs_alt"), ("lastEi", "last_ei")];

/// Changes to the saved form; returns whether the type field must not be changed for typed targets.
fn edit(r: &mut Rng, d: &mut Doc) {
    if r.chance(1, 2) { for p in PAIRS { if r.chance(1, 2) { respell(r, at(d, p)) } } }
    if r.chance(1, 12) { let p = r.pick(&PAIRS); *at(d, p) = spoil(r); }
    if r.chance(1, 20) { *d.sub("r") = r.pick(&[0, 256, -1, 255, 128]).into(); }
    if r.chance(1, 20) { *d.sub("im") = Doc::Str(["Mode0", "Mode1", "Mode2", "Mode3", "IM 1", ""][r.below(6) as usize].into()) }
    if r.chance(1, 30) { *d.sub("im") = Doc::Num(1) }
    if r.chance(1, 20) { *d.sub("prefix") = Doc::Str(["Xdd", "Yfd", "Zed", "xdd"][r.below(4) as usize].into()) }
    if r.chance(1, 20) { *d.sub("prefix") = Doc::Null }
    if r.chance(1, 20) { let p = r.pick(&["iff1", "iff2", "halt", "lastEi"]); *d.sub(p) = [Doc::Bool(true), Doc::Bool(false), Doc::Num(0), Doc::Num(1), Doc::Str("true".into()), Doc::Null][r.below(6) as usize].clone() }
    if r.chance(1, 3) {
        // the optional fields
        for k in ["memptr", "r", "flavour", "type"] { if r.chance(1, 2) { d.obj().retain(|(n, _)| n != k) } }
    } else {
        if r.chance(1, 8) { *d.sub("type") = Doc::Str(["NMOS", "CMOS", "BM1", "Z8000"][r.below(4) as usize].into()) }
        if r.chance(1, 4) {
            let f = d.sub("flavour").obj();
            if r.chance(1, 2) { for e in f.iter_mut() { e.0 = if e.0 == "flagsModified" { "flags_modified".into() } else if e.0 == "lastFlagsModified" { "last_flags_modified".into() } else { e.0.clone() } } }
            if r.chance(1, 2) { let n = r.below(f.len() as u64) as usize; f.remove(n); }
            if r.chance(1, 2) { for e in f.iter_mut() { e.1 = Doc::Bool(r.bit() != 0) } }
        }
    }
    if r.chance(1, 6) { for p in ["regs", "regsAlt", "index"] { if r.chance(1, 2) { unname(r, d.sub(p)) } } }
    if r.chance(1, 10) { let n = r.below(d.obj().len() as u64) as usize; d.obj().remove(n); }
    if r.chance(1, 14) { let n = r.below(d.obj().len() as u64) as usize; let e = d.obj()[n].clone(); let m = r.below(d.obj().len() as u64 + 1) as usize; d.obj().insert(m, e); }
    if r.chance(1, 20) { d.obj().push((["af2", "PC", "R", "", "lastei", "mem_ptr"][r.below(6) as usize].into(), Doc::Num(0))) }
    if r.chance(1, 3) { for (a, b) in SNAKE { for e in d.obj().iter_mut() { if e.0 == a && r.chance(1, 2) { e.0 = b.into() } } } }
    // fields in any order
    if r.chance(1, 2) { let o = d.obj(); for i in (1..o.len()).rev() { let j = r.below(i as u64 + 1) as usize; o.swap(i, j) } }
}
/// The values of a record in the order of its fields, sometimes too few or too many.
fn unname(r: &mut Rng, d: &mut Doc) {
    if let Doc::Obj(o) = d {
        let mut a: Vec<Doc> = o.iter().map(|(_, v)| v.clone()).collect();
        if r.chance(1, 12) { let n = r.below(a.len() as u64) as usize; a.truncate(n) }
        if r.chance(1, 30) { a.push(Doc::Bool(true)) }
        *d = Doc::Arr(a);
    }
}
/// The form without names: all the fields in order, or the form before there was a type.
fn nameless(r: &mut Rng, d: &mut Doc) {
    if r.chance(1, 2) { for p in PAIRS { if r.chance(1, 3) { respell(r, at(d, p)) } } }
    if r.chance(1, 8) { let p = r.pick(&PAIRS); *at(d, p) = spoil(r); }
    if r.chance(1, 10) { *d.sub("r") = r.pick(&[0, 256, -1, 255, 128]).into(); }
    if r.chance(1, 10) { *d.sub("im") = Doc::Str(["Mode0", "Mode1", "Mode2", "Mode3"][r.below(4) as usize].into()) }
    if r.chance(1, 10) { *d.sub("prefix") = Doc::Str(["Xdd", "Yfd", "Zed"][r.below(3) as usize].into()) }
    if r.chance(1, 10) { *d.sub("type") = Doc::Str(["NMOS", "CMOS", "BM1", "Z8000", ""][r.below(5) as usize].into()) }
    if r.chance(1, 10) { let p = r.pick(&["iff1", "iff2", "halt", "lastEi"]); *d.sub(p) = [Doc::Bool(true), Doc::Bool(false), Doc::Num(0), Doc::Null][r.below(4) as usize].clone() }
    for p in ["regs", "regsAlt", "index", "flavour"] { if r.chance(1, 2) { unname(r, d.sub(p)) } }
    let all = match d { Doc::Obj(o) => o, _ => panic!() };
    let mut a: Vec<Doc> = ORDER.iter().map(|k| all.iter().find(|(n, _)| n == k).unwrap().1.clone()).collect();
    match r.below(8) {
        0 | 1 => { a.remove(0); }
        2 => { let n = r.below(19) as usize; a.truncate(n) }
        3 => { let n = r.below(18) as usize; a.remove(n); }
        4 => { let n = r.below(19) as usize; a.insert(n, Doc::Num(1)) }
        _ => {}
    }
    *d = Doc::Arr(a);
}
impl From<i64> for Doc { fn from(n: i64) -> Doc { Doc::Num(n) } }

const ORDER: [&str; 18] = ["type", "af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "memptr", "lastEi", "ir", "im", "iff1", "iff2", "halt", "prefix", "r", "flavour"];

fn show<C: Vcpu>(r: &Result<C, ()>) -> (i64, i64, V) {
    match r { Ok(c) => (1, c.fl(), c.vec()), Err(()) => (0, 9, [0; 26]) }
}
/// Do both behave the same from here on, over some instructions?
fn follow<C: Vcpu, D: Vcpu>(c: &C, d: &D, seed: u64) -> bool {
    let run = |f: &mut dyn FnMut(&mut Host, &mut Clk) -> V| -> (V, Vec<[i64; 5]>, Vec<[i64; 3]>) {
        let mut h = Host::new(seed, Env::default());
        h.mode = 1;
        let mut k = Clk::new(0, 0);
        let v = f(&mut h, &mut k);
        let b = h.log.borrow().clone();
        (v, b, k.log.clone())
    };
    let (mut c, mut d) = (c.clone(), d.clone());
    let a = run(&mut |h, k| { for _ in 0..8 { let _ = c.execute_next(h, k, None::<CpuDebugFn>); } c.vec() });
    let b = run(&mut |h, k| { for _ in 0..8 { let _ = d.execute_next(h, k, None::<CpuDebugFn>); } d.vec() });
    a == b
}

trait Saved: Vcpu + serde::Serialize + serde::de::DeserializeOwned {}
impl<T: Vcpu + serde::Serialize + serde::de::DeserializeOwned> Saved for T {}

/// Restores an unedited save of `c` in several formats as a `D`; `same` when `D` is the same type and flavour.
fn formats<C: Saved, D: Saved>(c: &C, fl: i64, seed: u64) -> Vec<(Result<D, ()>, i64)> {
    let text = serde_json::to_string(c).unwrap();
    let val: Value = serde_json::to_value(c).unwrap();
    let bin = bincode::serialize(c).unwrap();
    let mut arr: Vec<Value> = ORDER.iter().map(|k| val[*k].clone()).collect();
    let mut out: Vec<Result<D, ()>> = vec![
        serde_json::from_str(&text).map_err(|_| ()),
        serde_json::from_reader(text.as_bytes()).map_err(|_| ()),
        serde_json::from_value(val).map_err(|_| ()),
        bincode::deserialize(&bin).map_err(|_| ()),
        bincode::deserialize_from(&bin[..]).map_err(|_| ()),
        serde_json::from_str(&Value::Array(arr.clone()).to_string()).map_err(|_| ()),
        serde_json::from_value(Value::Array(arr.clone())).map_err(|_| ()),
    ];
    // the older form without the type, read by the statically typed CPU
    if std::any::type_name::<D>() != std::any::type_name::<Z80Any>() {
        arr.remove(0);
        out.push(serde_json::from_value(Value::Array(arr)).map_err(|_| ()));
    }
    out.into_iter().map(|d| {
        let ok = match &d {
            Ok(d) if d.fl() == fl => follow(c, d, seed) && serde_json::to_string(d).unwrap() == text && bincode::serialize(d).unwrap() == bin,
            _ => true,
        };
        (d, ok as i64)
    }).collect()
}

fn one<C: Saved>(r: &mut Rng, fl: i64, w: &mut crate::Shards) {
    let mut v = gen_vec(r, fl);
    v[23] = r.bit();
    v[22] = r.bit();
    v[24] = r.pick(&[0, 0, 0xDD, 0xFD]);
    let mut c = C::mk(&v, fl);
    // some history, so that R and the flavour are as instructions leave them
    let n = r.below(5);
    let mut h = Host::new(r.next(), Env::default());
    h.mode = 1;
    let mut k = Clk::new(0, 0);
    for _ in 0..n { let _ = catch_unwind(AssertUnwindSafe(|| { let _ = c.execute_next(&mut h, &mut k, None::<CpuDebugFn>); })); }
    if r.chance(1, 4) { c.add_r(r.byte() as i32) }
    let pre = c.vec();
    let text = serde_json::to_string(&c).unwrap();
    let doc = Doc::of(&serde_json::from_str::<Value>(&text).unwrap());
    writeln!(w.next(), "[0,{},{},{}]", fl, ints(&pre), doc.tagged()).unwrap();
    let seed = r.next();
    macro_rules! restore { ($t:ty, $n:expr) => {
        let res = catch_unwind(AssertUnwindSafe(|| formats::<C, $t>(&c, fl, seed).iter().map(|(d, s)| { let (ok, f, v) = show(d); (ok, f, v, *s) }).collect::<Vec<_>>()));
        let res = res.unwrap_or_else(|_| vec![(-1, 9, [0; 26], 0)]);
        let all: Vec<String> = res.iter().map(|(ok, f, v, s)| format!("[{},{},{},{}]", ok, f, ints(v), s)).collect();
        writeln!(w.next(), "[1,{},{},[{}]]", $n, doc.tagged(), all.join(",")).unwrap();
    } }
    macro_rules! edited { ($t:ty, $n:expr, $d:expr) => {
        let s = $d.json();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let a: Result<$t, ()> = serde_json::from_str(&s).map_err(|_| ());
            let b: Result<$t, ()> = serde_json::from_reader(s.as_bytes()).map_err(|_| ());
            (show(&a), show(&b))
        }));
        let (a, b) = res.unwrap_or(((-1, 9, [0; 26]), (-1, 9, [0; 26])));
        writeln!(w.next(), "[1,{},{},[[{},{},{},1],[{},{},{},1]]]", $n, $d.tagged(), a.0, a.1, ints(&a.2), b.0, b.1, ints(&b.2)).unwrap();
    } }
    macro_rules! valued { ($t:ty, $n:expr, $d:expr) => {
        let s = $d.json();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let a: Result<$t, ()> = serde_json::from_value(serde_json::from_str::<Value>(&s).unwrap()).map_err(|_| ());
            show(&a)
        }));
        let a = res.unwrap_or((-1, 9, [0; 26]));
        writeln!(w.next(), "[2,{},{},[[{},{},{},1]]]", $n, $d.tagged(), a.0, a.1, ints(&a.2)).unwrap();
    } }
    macro_rules! cut { ($t:ty, $n:expr) => {
        let bin = bincode::serialize(&c).unwrap();
        let n = r.below(bin.len() as u64) as usize;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let a: Result<$t, ()> = bincode::deserialize(&bin[..n]).map_err(|_| ());
            let b: Result<$t, ()> = bincode::deserialize_from(&bin[..n]).map_err(|_| ());
            (show(&a), show(&b))
        }));
        let (a, b) = res.unwrap_or(((-1, 9, [0; 26]), (-1, 9, [0; 26])));
        writeln!(w.next(), "[2,{},[\"z\",0],[[{},{},{},1],[{},{},{},1]]]", $n, a.0, a.1, ints(&a.2), b.0, b.1, ints(&b.2)).unwrap();
    } }
    {
        let mut d = doc.clone();
        nameless(r, &mut d);
        match r.below(5) {
            0 => { edited!(Z80<NMOS>, 0, d); valued!(Z80<NMOS>, 0, d); cut!(Z80<NMOS>, 0); }
            1 => { edited!(Z80<CMOS>, 1, d); valued!(Z80<CMOS>, 1, d); cut!(Z80<CMOS>, 1); }
            2 => { edited!(Z80<BM1>, 2, d); valued!(Z80<BM1>, 2, d); cut!(Z80<BM1>, 2); }
            _ => { edited!(Z80Any, 3, d); valued!(Z80Any, 3, d); cut!(Z80Any, 3); }
        }
    }
    match r.below(4) {
        0 => { restore!(Z80<NMOS>, 0); }
        1 => { restore!(Z80<CMOS>, 1); }
        2 => { restore!(Z80<BM1>, 2); }
        _ => { restore!(Z80Any, 3); }
    }
    for _ in 0..3 {
        let mut d = doc.clone();
        edit(r, &mut d);
        match r.below(5) {
            0 => { edited!(Z80<NMOS>, 0, d); }
            1 => { edited!(Z80<CMOS>, 1, d); }
            2 => { edited!(Z80<BM1>, 2, d); }
            _ => { edited!(Z80Any, 3, d); }
        }
    }
}

pub fn run(args: &crate::Args) {
    let mut r = Rng::new(args.num("seed", 1).wrapping_mul(0x5e12) ^ 0x5345_5244);
    let mut w = crate::Shards::new(args);
    for i in 0..args.num("n", 1000) {
        let fl = i as i64 % 3;
        if r.chance(1, 2) { one::<Z80Any>(&mut r, fl, &mut w) } else {
            match fl { 0 => one::<Z80<NMOS>>(&mut r, fl, &mut w), 1 => one::<Z80<CMOS>>(&mut r, fl, &mut w), _ => one::<Z80<BM1>>(&mut r, fl, &mut w) }
        }
    }
}
