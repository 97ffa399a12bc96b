-------------------------------- MODULE Z80Host --------------------------------
(***************************************************************************)
(* The host side the library brings along: the ready-made clock (a counter *)
(* of T-states wrapping at the width of its integer type) as a transition  *)
(* system, and the default methods of hosts.                               *)
(* A counter value is a sequence of 16-bit limbs, least significant first. *)
(***************************************************************************)
EXTENDS Integers, Sequences

M1Ts == 4          \* opcode fetch, NMI, halted cycle
MemTs == 3         \* memory read or write
IoLowTs == 1       \* until IORQ goes low
IoTs == 4
IntLowTs == 2      \* until IORQ goes low in an interrupt acknowledge
IrqTs == 6
Cycles == << M1Ts, MemTs, IoLowTs, IoTs, IntLowTs, IrqTs >>

(* v + n modulo 2^(16 * Len(v)), n below 2^16 *)
RECURSIVE Add(_, _, _)
Add(v, n, k) == IF k > Len(v) THEN <<>>
                ELSE LET s == v[k] + n IN << s % 65536 >> \o Add(v, s \div 65536, k + 1)
Plus(v, n) == Add(v, n, 1)
(* order: unsigned from the top limb down; signed numbers have their top bit flipped first *)
Key(v, signed) == IF signed = 1 THEN [v EXCEPT ![Len(v)] = (@ + 32768) % 65536] ELSE v
RECURSIVE Less(_, _, _)
Less(a, b, k) == k > 0 /\ (a[k] < b[k] \/ (a[k] = b[k] /\ Less(a, b, k - 1)))
Lt(a, b, signed) == Less(Key(a, signed), Key(b, signed), Len(a))
Bit(p) == IF p THEN 1 ELSE 0

(* one call on a counter: <<what it returns, the counter after it>> *)
Tick(v, signed, k, n, arg) ==
  CASE k = 0 -> << Plus(v, M1Ts), Plus(v, M1Ts) >>              \* add_m1: stamped at its end
    [] k = 1 -> << Plus(v, MemTs), Plus(v, MemTs) >>            \* add_mreq: likewise
    [] k = 2 -> << Plus(v, IoLowTs), Plus(v, IoTs) >>           \* add_io
    [] k = 3 -> << Plus(v, IntLowTs), Plus(v, IrqTs) >>         \* add_irq
    [] k \in {4, 5} -> << <<>>, Plus(v, n) >>                   \* internal cycles, wait states
    [] k \in {6, 11, 13, 14} -> << v, v >>                      \* as_timestamp, save and restore, Deref
    [] k = 7 -> << << Bit(~Lt(v, arg, signed)) >>, v >>         \* is_past_limit
    [] k \in {8, 9, 10, 15} -> << <<>>, arg >>                  \* made from, assigned
    [] k = 12 -> << << IF Lt(v, arg, signed) THEN 0 ELSE IF v = arg THEN 1 ELSE 2, Bit(v = arg) >>, v >>
    [] k = 16 -> << [i \in 1..Len(v) |-> 0], [i \in 1..Len(v) |-> 0] >>

(* Default methods.  which: 0, 1 a host that implements nothing; 2 only read_debug; 3 read_debug and
   read_mem (complemented).  m: the bytes read_debug would give at the address and after it. *)
Default(which, f, m) ==
  LET dbg == IF which < 2 THEN << 255, 255 >> ELSE m
  IN CASE f = 0 -> << 255, 0 >>            \* read_io: floating bus, no wait states
       [] f = 1 -> << 0, 0 >>              \* write_io: no break, no wait states
       [] f = 2 -> << 0 >>                 \* is_irq
       [] f = 3 -> << 255, 0 >>            \* irq_data: RST 38h
       [] f = 4 -> << 0 >>                 \* reti
       [] f = 5 -> << IF which = 3 THEN 255 - dbg[1] ELSE dbg[1] >>
       [] f = 6 -> << dbg[1] + 256 * dbg[2] >>
       [] f \in {7, 8} -> << dbg[1] >>
       [] f = 9 -> << dbg[1] >>            \* write_mem does nothing
=============================================================================
