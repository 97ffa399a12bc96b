//! Drives the real z80emu crate and records what it does, for the specification to judge.
mod alu;
mod api;
mod cpuvec;
mod ctl;
mod clock;
mod dis;
mod host;
mod limit;
mod rng;
mod ser;
mod steps;
mod tables;
mod wrap;

use std::collections::HashMap;

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn get(&self, k: &str, d: &str) -> String { self.0.get(k).cloned().unwrap_or_else(|| d.to_string()) }
    pub fn num(&self, k: &str, d: u64) -> u64 { self.0.get(k).map(|s| s.parse().unwrap()).unwrap_or(d) }
}

/// Records are dealt out to `shards` files `out.0`, `out.1`, ... so that they can be judged in parallel.
pub struct Shards(Vec<std::io::BufWriter<std::fs::File>>, usize);
impl Shards {
    pub fn new(a: &Args) -> Self {
        let out = a.get("out", "");
        Shards((0..a.num("shards", 1)).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}.{}", out, i)).unwrap())).collect(), 0)
    }
    pub fn next(&mut self) -> &mut std::io::BufWriter<std::fs::File> {
        self.1 = (self.1 + 1) % self.0.len();
        &mut self.0[self.1]
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("subcommand");
    let args = Args(it.map(|a| { let (k, v) = a.split_once('=').expect("key=value"); (k.to_string(), v.to_string()) }).collect());
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("Z80H_PANICS").map(|v| !v.is_empty()).unwrap_or(false) { eprintln!("{}", i) }
    }));
    wrap::set_wrap(args.num("wrap", 0) as u8);
    match cmd.as_str() {
        "clock" => clock::run(&args),
        "tables" => tables::run(&args),
        "step" => steps::run(&args),
        "api" => api::run(&args),
        "alu" => alu::tables(&args),
        "limit" => limit::run(&args),
        "ctl" => ctl::run(&args),
        "ser" => ser::run(&args),
        "dis" => dis::run(&args),
        "disprint" => dis::print(&args),
        "forms" => alu::forms(&args),
        _ => panic!("unknown subcommand {}", cmd),
    }
}
