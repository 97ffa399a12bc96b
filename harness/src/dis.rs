//! Recorded disassembly and debugger output.
use crate::cpuvec::*;
use crate::host::*;
use crate::rng::Rng;
use crate::steps::*;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use z80emu::disasm::*;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

fn one(d: &CpuDebug) -> String {
    let code: Vec<i64> = d.code.iter().map(|b| *b as i64).collect();
    format!("[{},{},{},[\"{}\",\"{:x}\",\"{:X}\",\"{:#x}\",\"{:#X}\"]]", d.pc, ints(&code), px_num(d.prefix), d, d, d, d, d)
}

fn chunk<C: Cpu>(pc: u16, mem: &[u8], stop: usize, printed: bool) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut lines = Vec::new();
        let full: Result<(), ()> = disasm_memory::<C, _, _>(pc, mem, |d| { lines.push(one(&d)); Ok(()) });
        let mut text = String::new();
        let tr = if printed {
            // the listing printed by another process
            let hex: String = mem.iter().map(|b| format!("{:02x}", b)).collect();
            let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("disprint").arg(format!("pc={}", pc)).arg(format!("mem={}", hex)).output().unwrap();
            text = String::from_utf8(o.stdout).unwrap();
            Ok(())
        } else { disasm_memory_write_text::<C, _>(pc, mem, &mut text) };
        if full.is_err() || tr.is_err() { text.push_str("ERROR") }
        let once = disasm_memory_once::<C>(pc, mem).map(|d| one(&d)).unwrap_or_default();
        let mut seen = 0;
        let sr = disasm_memory::<C, _, _>(pc, mem, |_| { seen += 1; if seen == stop { Err(()) } else { Ok(()) } });
        format!("[{}],\"{}\",[{}],{},[{},{}]", lines.join(","), text.replace('\n', "\\n"), once, stop, seen, sr.is_err() as u8)
    }));
    let bytes: Vec<i64> = mem.iter().map(|b| *b as i64).collect();
    format!("[0,{},{},{}]", pc, ints(&bytes), r.unwrap_or_else(|_| "[],\"PANIC\",[],1,[0,0]".to_string()))
}

fn executed<Q: Flavour>(r: &mut Rng, fl: i64, px: i64, b: &[u8]) -> String {
    let mut env = gen_env(r, false);
    env.irq = 0;
    let mut v = gen_vec(r, fl);
    v[24] = px;
    let pc = v[15] as u16;
    let mut h = Host::new(r.next(), env);
    let mut b = b.to_vec();
    while b.len() < 4 { b.push(r.byte()) }
    h.load(pc, &b);
    let mut cpu = make::<Q>(&v);
    let mut k = Clk::new(0, 0);
    let mut seen = Vec::new();
    let bytes: Vec<i64> = (0..4).map(|i| h.peek(pc.wrapping_add(i)) as i64).collect();
    let res = catch_unwind(AssertUnwindSafe(|| { let _ = cpu.execute_next(&mut h, &mut k, Some(|d: CpuDebug| seen.push(one(&d)))); }));
    if res.is_err() { seen.clear() }
    format!("[1,{},{},{},[{}]]", px, pc, ints(&bytes), seen.join(","))
}

pub fn run(args: &crate::Args) {
    let mut r = Rng::new(args.num("seed", 1) ^ 0x4449_5341);
    let mut w = crate::Shards::new(args);
    for (px, b) in all_ops() {
        if b[0] == 0xDD || b[0] == 0xFD { continue }
        for i in 0..args.num("k", 3) {
            let mut b = b.clone();
            if b.len() == 3 { b[1] = r.byte() }
            let mut s = match i % 3 {
                0 => executed::<NMOS>(&mut r, 0, px, &b),
                1 => executed::<CMOS>(&mut r, 1, px, &b),
                _ => executed::<BM1>(&mut r, 2, px, &b),
            };
            s.push('\n');
            w.next().write_all(s.as_bytes()).unwrap();
        }
    }
    for i in 0..args.num("n", 2000) {
        let len = match r.below(8) { 0 => r.below(4), 1 => r.below(60), _ => 1 + r.below(14) };
        let seed = r.next();
        let mode = r.pick(&[0, 1, 1, 2, 3]);
        let mem: Vec<u8> = (0..len).map(|a| crate::rng::mem_byte(seed, a as u16, mode)).collect();
        let pc = r.word();
        let stop = 1 + r.below(6) as usize;
        let mut s = match i % 4 {
            0 => chunk::<Z80<NMOS>>(pc, &mem, stop, i % 250 == 0),
            1 => chunk::<Z80<CMOS>>(pc, &mem, stop, i % 250 == 0),
            2 => chunk::<Z80<BM1>>(pc, &mem, stop, i % 250 == 0),
            _ => chunk::<Z80Any>(pc, &mem, stop, i % 250 == 0),
        };
        s.push('\n');
        w.next().write_all(s.as_bytes()).unwrap();
    }
}

pub fn print(args: &crate::Args) {
    let hex = args.get("mem", "");
    let mem: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    disasm_memory_print_text::<Z80NMOS>(args.num("pc", 0) as u16, &mem);
}
