//! Hosts and clocks made with the forwarding macros of the crate, around the recording ones.
use crate::host::*;
use z80emu::host::TsCounter;
use z80emu::*;
use std::sync::atomic::{AtomicU8, Ordering};

static WRAP: AtomicU8 = AtomicU8::new(0);
/// Which wrapping all following calls go through.
pub fn set_wrap(n: u8) { WRAP.store(n, Ordering::Relaxed) }
pub fn wrap() -> u8 { WRAP.load(Ordering::Relaxed) }

/// Everything forwarded at once.
pub struct W1<'a>(pub &'a mut Host);
impl Io for W1<'_> {
    forward_host_io_types! { @ => Host }
    forward_host_io_methods! { @ => |b| b.0 }
}
impl Memory for W1<'_> {
    forward_host_memory_types! { @ => Host }
    forward_host_memory_methods! { @ => |b| b.0 }
}
pub struct K1<'a, K>(pub &'a mut K);
impl<K: Clock> Clock for K1<'_, K> {
    forward_host_clock_types! { @ => K }
    forward_host_clock_methods! { @ => |c| c.0 }
}

/// Accessor methods, split by access, lists with and without commas.
pub struct W2<'a> { bus: &'a mut Host }
impl<'a> W2<'a> {
    pub fn new(bus: &'a mut Host) -> Self { W2 { bus } }
    fn bus_ref(&self) -> &Host { &*self.bus }
    fn bus_mut(&mut self) -> &mut Host { &mut *self.bus }
}
impl Io for W2<'_> {
    forward_host_io_types! { Timestamp => Host }
    forward_host_io_types! { (WrIoBreak RetiBreak) => Host }
    forward_host_io_methods! { (write_io, read_io) => |b| b.bus_mut() }
    forward_host_io_methods! { (is_irq irq_data reti) => |b| b.bus_mut() }
}
impl Memory for W2<'_> {
    forward_host_memory_types! { (Timestamp) => Host }
    forward_host_memory_methods! { @ref => |b| b.bus_ref() }
    forward_host_memory_methods! { @mut => |b| b.bus_mut() }
}
pub struct K2<K> { pub clk: K }
impl<K> K2<K> {
    fn clk_ref(&self) -> &K { &self.clk }
    fn clk_mut(&mut self) -> &mut K { &mut self.clk }
}
impl<K: Clock> Clock for K2<K> {
    forward_host_clock_types! { (Limit, Timestamp) => K }
    forward_host_clock_methods! { @ref => |c| c.clk_ref() }
    forward_host_clock_methods! { @mut => |c| c.clk_mut() }
}

/// One method at a time, around an already wrapped host.
pub struct W3<B>(pub B);
impl<B: Io> Io for W3<B> {
    forward_host_io_types! { (Timestamp, WrIoBreak, RetiBreak) => B }
    forward_host_io_methods! { write_io => |b| b.0 }
    forward_host_io_methods! { read_io => |b| b.0 }
    forward_host_io_methods! { is_irq => |b| b.0 }
    forward_host_io_methods! { irq_data => |b| b.0 }
    forward_host_io_methods! { reti => |b| b.0 }
}
impl<B: Memory> Memory for W3<B> {
    forward_host_memory_types! { Timestamp => B }
    forward_host_memory_methods! { read_opcode => |b| b.0 }
    forward_host_memory_methods! { (read_mem read_mem16) => |b| b.0 }
    forward_host_memory_methods! { (write_mem, read_debug) => |b| b.0 }
}
pub struct K3<K>(pub K);
impl<K: Clock> Clock for K3<K> {
    forward_host_clock_types! { Limit => K }
    forward_host_clock_types! { (Timestamp) => K }
    forward_host_clock_methods! { is_past_limit => |c| c.0 }
    forward_host_clock_methods! { add_irq => |c| c.0 }
    forward_host_clock_methods! { (add_no_mreq, add_m1) => |c| c.0 }
    forward_host_clock_methods! { (add_mreq add_io) => |c| c.0 }
    forward_host_clock_methods! { add_wait_states => |c| c.0 }
    forward_host_clock_methods! { as_timestamp => |c| c.0 }
}

/// The crate's own counter under the recording clock: it decides every time stamp.
pub struct Real<'a>(pub &'a mut Clk, pub TsCounter<i64>);
impl<'a> Real<'a> {
    pub fn new(k: &'a mut Clk) -> Self { let t = TsCounter::from(k.cur); Real(k, t) }
    fn done<T>(&mut self, x: T) -> T { self.0.cur = self.1.as_timestamp(); x }
}
impl Clock for Real<'_> {
    type Limit = i64;
    type Timestamp = i64;
    fn is_past_limit(&self, limit: i64) -> bool { self.1.is_past_limit(limit) }
    fn add_irq(&mut self, a: u16) -> i64 { self.0.add_irq(a); let x = self.1.add_irq(a); self.done(x) }
    fn add_m1(&mut self, a: u16) -> i64 { self.0.add_m1(a); let x = self.1.add_m1(a); self.done(x) }
    fn add_mreq(&mut self, a: u16) -> i64 { self.0.add_mreq(a); let x = self.1.add_mreq(a); self.done(x) }
    fn add_io(&mut self, a: u16) -> i64 { self.0.add_io(a); let x = self.1.add_io(a); self.done(x) }
    fn add_no_mreq(&mut self, a: u16, n: core::num::NonZeroU8) { self.0.add_no_mreq(a, n); self.1.add_no_mreq(a, n); self.done(()) }
    fn add_wait_states(&mut self, a: u16, n: core::num::NonZeroU16) { self.0.add_wait_states(a, n); self.1.add_wait_states(a, n); self.done(()) }
    fn as_timestamp(&self) -> i64 { self.1.as_timestamp() }
}

/// Evaluates an expression with the host and the clock as they are or wrapped.
#[macro_export]
macro_rules! wrapped {
    ($h:expr, $k:expr, |$hh:ident, $kk:ident| $e:expr) => {
        match $crate::wrap::wrap() {
            0 => { let ($hh, $kk) = (&mut *$h, &mut *$k); $e }
            1 => { let ($hh, $kk) = (&mut $crate::wrap::W1($h), &mut $crate::wrap::K1($k)); $e }
            2 => { let ($hh, $kk) = (&mut $crate::wrap::W2::new($h), &mut $crate::wrap::K2 { clk: $crate::wrap::K1($k) }); $e }
            3 => { let ($hh, $kk) = (&mut $crate::wrap::W3($crate::wrap::W1($h)), &mut $crate::wrap::K3($crate::wrap::K1($k))); $e }
            _ => { let ($hh, $kk) = (&mut *$h, &mut $crate::wrap::Real::new($k)); $e }
        }
    }
}
