--------------------------------- MODULE Ral ---------------------------------
(***************************************************************************)
(* The example computer of the repository (examples/ral1243): banked       *)
(* memory, the I/O ports, the daisy chain CTC -> PIO -> terminator with     *)
(* its interrupt priorities, as one machine driven by host calls of a CPU.  *)
(*                                                                          *)
(* Time is the timestamp each call brings along; there is no activity       *)
(* between calls.  The CTC of the code skips channels it believes idle; the *)
(* specification does not: at every poll every channel is brought up to     *)
(* date, and nothing may be observably late.                                *)
(*                                                                          *)
(* "lazy", "stale" and "slow" describe what the code does instead, with its *)
(* two recorded defects (known-findings.txt), exactly enough to tell them   *)
(* from any other deviation; the specification proper has them all FALSE.   *)
(***************************************************************************)
EXTENDS Z80ALU, FiniteSets, TLC

None == -1
And16(x, y) == 256 * And8(Hi(x), Hi(y)) + And8(Lo(x), Lo(y))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

----------------------------------------------------------------------------
(* Memory: ROM 0000-1FFF, bank 1 2000-3FFF, user RAM from 4000.             *)
(* A ROM is <<length, kind>>; its contents are a fixed function of these.   *)
RomByte(rom, a) == IF a < rom[1] THEN ((a * 13) + (rom[2] * 7) + (a \div 256)) % 256 ELSE 255
Memory(rom, kb) == [rom |-> rom, size |-> kb * 1024, sel |-> 0, isram |-> FALSE, ex |-> <<>>, w |-> <<>>]
(* what was written, else zero: w maps addresses (a function whose domain grows) *)
Kept(m, a) == IF a \in DOMAIN m.w THEN m.w[a] ELSE 0
Put(m, a, v) == [m EXCEPT !.w = (a :> v) @@ @]
Peek(m, a) ==
  CASE a < 8192  -> RomByte(m.rom, a)
    [] a < 16384 /\ a >= 8192 -> IF m.isram THEN Kept(m, a)
                                 ELSE IF m.sel < Len(m.ex) THEN RomByte(m.ex[m.sel + 1], a % 8192) ELSE 255
    [] OTHER -> IF a - 16384 < m.size THEN Kept(m, a) ELSE 255
Peek16(m, a) == Peek(m, a) + 256 * Peek(m, (a + 1) % 65536)
Poke(m, a, v) ==
  CASE a < 8192 -> m
    [] a < 16384 /\ a >= 8192 -> IF m.isram THEN Put(m, a, v) ELSE m
    [] OTHER -> IF a - 16384 < m.size THEN Put(m, a, v) ELSE m
(* an opcode fetched from the kernel ROM shows the kernel's RAM in bank 1, any other the cartridge *)
Fetching(m, pc) == [m EXCEPT !.isram = pc < 8192]
Free(m) == 256 - Len(m.ex)

----------------------------------------------------------------------------
(* Trigger lines.  0: a list of edges <<time, rising>>; 1: a clock, edges at multiples of its half   *)
(* period, the first one rising; 2: pulses of another channel, rising at t, falling at t + 2.        *)
RECURSIVE DropTo(_, _)
DropTo(ev, ts) == IF ev # <<>> /\ ev[1][1] <= ts THEN DropTo(Tail(ev), ts) ELSE ev
RECURSIVE FirstEdge(_, _, _)
FirstEdge(ev, rising, ts) ==      \* <<time or None, remaining>>
  IF ev = <<>> \/ ev[1][1] > ts THEN << None, ev >>
  ELSE IF ev[1][2] = rising THEN << ev[1][1], Tail(ev) >> ELSE FirstEdge(Tail(ev), rising, ts)
NextTrg(t, rising, ts) ==
  CASE t.k = 0 -> LET f == FirstEdge(t.ev, rising, ts) IN << f[1], [t EXCEPT !.ev = f[2]] >>
    [] t.k = 1 -> LET n == t.seen + t.half
                      m == IF t.high # rising THEN n ELSE n + t.half
                  IN IF m <= ts THEN << m, [t EXCEPT !.seen = m, !.high = rising] >>
                     ELSE IF n <= ts THEN << None, [t EXCEPT !.seen = n, !.high = 1 - @] >>
                     ELSE << None, t >>
    [] t.k = 2 -> IF t.p = <<>> \/ t.p[1] > ts THEN << None, t >>
                  ELSE IF rising = 1 THEN << t.p[1], [t EXCEPT !.p = Tail(@)] >>
                  ELSE IF t.p[1] + 2 <= ts THEN << t.p[1] + 2, [t EXCEPT !.p = Tail(@)] >>
                  ELSE << None, t >>
RECURSIVE DropPulses(_, _)
DropPulses(p, ts) == IF p # <<>> /\ p[1] + 2 <= ts THEN DropPulses(Tail(p), ts) ELSE p
Far == 2000000000
(* when a line may have something new *)
Awaited(t, rising, ts) ==
  CASE t.k = 0 -> LET k == { k \in DOMAIN t.ev : t.ev[k][2] = rising } IN IF k = {} THEN Far ELSE t.ev[CHOOSE x \in k : \A y \in k : x <= y][1]
    [] t.k = 1 -> t.seen + t.half
    [] t.k = 2 -> IF t.p = <<>> THEN Far ELSE IF t.p[1] <= ts THEN t.p[1] + 2 ELSE t.p[1]
Purged(t, ts) == IF t.k = 0 THEN (IF t.ev = <<>> THEN Far ELSE t.ev[1][1]) ELSE Awaited(t, 0, ts)
Purge(t, ts) ==
  CASE t.k = 0 -> [t EXCEPT !.ev = DropTo(@, ts)]
    [] t.k = 1 /\ t.slow -> IF t.seen + t.half <= ts THEN [t EXCEPT !.seen = @ + t.half, !.high = 1 - @] ELSE t
    [] t.k = 1 /\ ~t.slow -> LET n == IF ts > t.seen THEN (ts - t.seen) \div t.half ELSE 0
                                    IN [t EXCEPT !.seen = @ + n * t.half, !.high = (@ + n) % 2]
    [] t.k = 2 -> [t EXCEPT !.p = DropPulses(@, ts)]
Sooner(x, d) == IF x >= d THEN x - d ELSE 0
TrgSecond(t, d) ==
  CASE t.k = 0 -> [t EXCEPT !.ev = [i \in DOMAIN @ |-> << Sooner(@[i][1], d), @[i][2] >>]]
    [] t.k = 1 -> [t EXCEPT !.seen = Sooner(@, d)]
    [] t.k = 2 -> [t EXCEPT !.p = [i \in DOMAIN @ |-> Sooner(@[i], d)]]

(* One CTC channel. last: up to when the timer has counted (None: not running); ext: armed, waits for  *)
(* a trigger from then on; restart: time constant (None: stopped); sub: 256ths of the current count.   *)
Channel(trig) == [counter |-> FALSE, x16 |-> FALSE, last |-> None, ext |-> None, sub |-> 256, restart |-> None,
                  cur |-> 0, wait |-> FALSE, byedge |-> FALSE, ie |-> FALSE, ia |-> FALSE, rising |-> 0, hint |-> 0, trig |-> trig]
Raise(c) == [c EXCEPT !.ia = @ \/ c.ie]
Start(c, ts) == [c EXCEPT !.last = ts + 1, !.hint = ts + 1]
(* <<channel, pulses>> *)
Down(c, ts) == LET v == (c.cur + 255) % 256
               IN IF v # 0 THEN << [c EXCEPT !.cur = v], <<>> >>
                  ELSE << Raise([c EXCEPT !.cur = c.restart, !.hint = 0]), << ts >> >>
RECURSIVE Count(_, _)
Count(c, ts) == LET n == NextTrg(c.trig, c.rising, ts)   c1 == [c EXCEPT !.trig = n[2]]
                IN IF n[1] = None THEN << [c1 EXCEPT !.hint = Awaited(n[2], c.rising, ts)], <<>> >>
                   ELSE LET d == Down(c1, n[1]) IN IF d[2] # <<>> THEN d ELSE Count(d[1], ts)
RECURSIVE Arm(_, _)
Arm(c, ts) == LET n == NextTrg(c.trig, c.rising, ts)   c1 == [c EXCEPT !.trig = n[2]]
              IN IF n[1] = None THEN [c1 EXCEPT !.hint = Awaited(n[2], c.rising, ts)] ELSE IF n[1] >= c.ext THEN Start(c1, n[1]) ELSE Arm(c1, ts)
(* the timer: <<256ths left to zero, pulses>> after "left" 256ths more *)
Elapse(tc, left, at, f, full) ==
  IF left < tc THEN << tc - left, <<>> >>
  ELSE << full - ((left - tc) % full),
          [k \in 1..(((left - tc) \div full) + 1) |-> at + (tc \div f) + ((k - 1) * (full \div f))] >>
Tick(c, ts) ==
  LET f == IF c.x16 THEN 16 ELSE 1
      full == 256 * (IF c.restart = 0 THEN 256 ELSE c.restart)
      e == Elapse(256 * ((c.cur + 255) % 256) + c.sub, (ts - c.last) * f, c.last, f, full)
      c1 == IF e[1] % 256 = 0 THEN [c EXCEPT !.sub = 256, !.cur = (e[1] \div 256) % 256, !.last = ts]
            ELSE [c EXCEPT !.sub = e[1] % 256, !.cur = ((e[1] \div 256) + 1) % 256, !.last = ts]
  \* (a pulse within no whole T-state of the last update does not count as one for the hint)
  IN << [(IF e[2] = <<>> THEN c1 ELSE Raise(c1)) EXCEPT !.hint = IF e[2] = <<>> \/ e[2][Len(e[2])] = c.last THEN ts + (e[1] \div f) ELSE 0], e[2] >>
Process(c, ts) ==
  IF c.restart # None /\ c.counter THEN Count(c, ts)
  ELSE IF c.restart # None /\ c.last # None
       THEN LET c1 == [c EXCEPT !.trig = Purge(@, ts)] IN IF ts > c.last THEN Tick(c1, ts) ELSE << [c1 EXCEPT !.hint = c.last + 1], <<>> >>
  ELSE IF c.restart # None /\ c.ext # None THEN << Arm(c, ts), <<>> >>
  ELSE LET t == Purge(c.trig, ts) IN << [c EXCEPT !.trig = t, !.hint = Purged(t, ts)], <<>> >>
(* <<channel, pulses>> *)
Constant(c, v, ts) ==
  LET c1 == [c EXCEPT !.wait = FALSE, !.cur = IF c.restart = None THEN v ELSE @, !.restart = v]
  IN IF c.counter \/ c.last # None THEN c1
     ELSE IF c.byedge THEN [c1 EXCEPT !.ext = ts] ELSE Start(c1, ts)
Control(c, v, ts) ==
  LET c1 == IF Bit(v, 1) = 1 THEN [c EXCEPT !.restart = None, !.last = None, !.ext = None, !.sub = 256] ELSE c
      c2 == [c1 EXCEPT !.wait = @ \/ (Bit(v, 2) = 1), !.x16 = Bit(v, 5) = 0, !.ie = Bit(v, 7) = 1, !.ia = @ /\ (Bit(v, 7) = 1)]
      runs == c2.restart # None /\ ~c2.wait
      c3 == IF Bit(v, 6) = 1
            THEN IF c2.counter THEN c2 ELSE [c2 EXCEPT !.last = None, !.ext = None, !.counter = TRUE]
            ELSE IF ~c2.counter THEN c2
            ELSE [ (IF ~runs THEN c2 ELSE IF Bit(v, 3) = 1 THEN [c2 EXCEPT !.ext = ts] ELSE Start(c2, ts))
                   EXCEPT !.counter = FALSE ]
      c4 == IF c3.counter THEN c3
            ELSE IF Bit(v, 3) = 1 THEN [c3 EXCEPT !.byedge = TRUE]
            ELSE IF ~c3.byedge THEN c3
            ELSE [ (IF c3.last = None /\ runs THEN Start(c3, ts) ELSE c3) EXCEPT !.ext = None, !.byedge = FALSE ]
      c5 == [c4 EXCEPT !.rising = Bit(v, 4)]
  IN IF c4.rising = c5.rising \/ c5.restart = None THEN << c5, <<>> >>
     ELSE IF c5.counter THEN Down(c5, ts)      \* changing the active edge counts as one
     ELSE IF c5.last = None /\ c5.ext # None /\ ts >= c5.ext THEN << Start(c5, ts), <<>> >>
     ELSE << c5, <<>> >>

----------------------------------------------------------------------------
(* PIO: two channels and what is connected to them.                                                    *)
(* dev 0: a peripheral answering every call of its interface; dev 1: the ready-made ones, an input     *)
(* fed from a stream (channel A) and an output drained by a sink (channel B).                          *)
Port(dev) == [out |-> FALSE, want |-> FALSE, ie |-> FALSE, ia |-> FALSE, rdy |-> TRUE, din |-> 0, dout |-> 0, vec |-> 0,
              dev |-> dev, dready |-> FALSE, pend |-> None]

(* The whole machine.  log: calls the peripherals must have seen so far; rec: those they did, with answers. *)
Machine(cfg, lazy, stale, slow) ==
  [mem |-> Memory(cfg[2], cfg[1]),
   ports |-> cfg[3],
   vec |-> 0, ieo |-> FALSE,
   ch |-> [c \in 1..4 |-> Channel(
            IF cfg[5] = 0 THEN [k |-> 0, ev |-> cfg[6][c]]
            ELSE IF c \in {1, 3} THEN [k |-> 1, half |-> cfg[5] \div 2, seen |-> 0, high |-> 0, slow |-> slow] ELSE [k |-> 2, p |-> <<>>])],
   chained |-> cfg[5] # 0, lazy |-> lazy, stale |-> stale, hint |-> 0, full |-> FALSE,
   pieo |-> FALSE, pio |-> << Port(cfg[4]), Port(cfg[4]) >>,
   log |-> <<>>, rec |-> <<>>]

Answer(s) == IF Len(s.log) < Len(s.rec) THEN s.rec[Len(s.log) + 1][5] ELSE -7
Called(s, who, what, v, ts, ans) == [s EXCEPT !.log = Append(@, << who, what, v, ts, ans >>)]
Pulses(s, c, zc) == [s EXCEPT !.log = @ \o [k \in DOMAIN zc |-> << c, "zc", 0, zc[k], 0 >>]]
Out(s, c, r) ==       \* r: <<channel, pulses>> of channel c, logged or handed on along the chain
  LET s1 == [s EXCEPT !.ch[c] = r[1]]
  IN IF ~s.chained THEN Pulses(s1, c, r[2])
     ELSE IF c \in {1, 3} THEN [s1 EXCEPT !.ch[c + 1].trig.p = @ \o r[2], !.full = @ \/ Len(s.ch[c + 1].trig.p) + Len(r[2]) > 4] ELSE s1
Update(s, c, ts) == Out(s, c, Process(s.ch[c], ts))
(* Bringing the channels up to date.  Pulses arriving at the next channel of a chain during the same   *)
(* poll may be seen by it now or at its next.                                                           *)
Pair(s, c, ts) ==
  LET now == Update(Update(s, c, ts), c + 1, ts)
      late == LET a == Process(s.ch[c], ts)   b == Process(s.ch[c + 1], ts)
              IN [s EXCEPT !.ch[c] = a[1], !.ch[c + 1] = [b[1] EXCEPT !.trig.p = @ \o a[2]]]
  IN IF s.chained THEN { now, late } ELSE { now }
RECURSIVE Skim(_, _, _)
Skim(s, c, ts) == IF c > 4 THEN [s EXCEPT !.hint = Min2(Min2(s.ch[1].hint, s.ch[2].hint), Min2(s.ch[3].hint, s.ch[4].hint))]
                  ELSE Skim(IF s.hint = 0 \/ ts >= s.ch[c].hint THEN Update(s, c, ts) ELSE s, c + 1, ts)
PollCtc(s, ts) == IF s.lazy THEN { IF ts >= s.hint THEN Skim(s, 1, ts) ELSE s }
                  ELSE UNION { Pair(t, 3, ts) : t \in Pair(s, 1, ts) }
Touched(s) == IF s.stale THEN s ELSE [s EXCEPT !.hint = 0]

(* PIO peripherals: <<machine, answer>> *)
Slurp(s, ts) == LET a == Answer(s) IN << Called(s, 5, "slurp", 0, 0, a), a >>
Flush(s, v) == LET a == Answer(s) IN << Called(s, 6, "flush", v, 0, a), a >>
Ready(s, n, ts) == IF s.pio[n].dev = 0 THEN Called(s, 4 + n, "ready", 0, ts, 0)
                   ELSE IF n = 1 THEN [s EXCEPT !.pio[1].dready = TRUE] ELSE s
Float(s, n, ts) == IF s.pio[n].dev = 0 THEN Called(s, 4 + n, "float", 0, ts, 0)
                   ELSE IF n = 1 THEN [s EXCEPT !.pio[1].dready = TRUE] ELSE [s EXCEPT !.pio[2].pend = None]
Drive(s, n, v, ts) == IF s.pio[n].dev = 0 THEN Called(s, 4 + n, "drive", v, ts, 0)
                      ELSE IF n = 1 THEN [s EXCEPT !.pio[1].dready = FALSE] ELSE s
Sample(s, n, ts) == IF s.pio[n].dev = 0 THEN << Called(s, 4 + n, "sample", 0, ts, Answer(s)), Answer(s) >>
                    ELSE IF n = 2 \/ ~s.pio[1].dready THEN << s, None >>
                    ELSE LET r == Slurp(s, ts) IN << IF r[2] = None THEN r[1] ELSE [r[1] EXCEPT !.pio[1].dready = FALSE], r[2] >>
Strobe(s, n, ts) == IF s.pio[n].dev = 0 THEN << Called(s, 4 + n, "strobe", 0, ts, Answer(s)), Answer(s) >>
                    ELSE IF n = 1 THEN << s, 0 >>
                    ELSE IF s.pio[2].pend = None THEN << s, 1 >>
                    ELSE LET r == Flush(s, s.pio[2].pend) IN << IF r[2] = 1 THEN [r[1] EXCEPT !.pio[2].pend = None] ELSE r[1], r[2] >>
Give(s, n, v, ts) == IF s.pio[n].dev = 0 THEN Called(s, 4 + n, "give", v, ts, 0)
                     ELSE IF n = 1 THEN s
                     ELSE LET r == Flush(s, v) IN IF r[2] = 1 THEN r[1] ELSE [r[1] EXCEPT !.pio[2].pend = v]
PInt(s, n) == [s EXCEPT !.pio[n].ia = @ \/ s.pio[n].ie]

CheckInt(s, n, ts) ==
  LET p == s.pio[n] IN
  IF ~p.rdy THEN s
  ELSE IF ~p.out
       THEN LET r == Sample(s, n, ts)
            IN IF r[2] = None THEN r[1] ELSE PInt([r[1] EXCEPT !.pio[n].din = r[2], !.pio[n].rdy = FALSE], n)
       ELSE LET r == Strobe(s, n, ts)
            IN IF r[2] = 0 THEN r[1] ELSE PInt([r[1] EXCEPT !.pio[n].rdy = FALSE], n)
PM1(p) == IF p.want THEN [p EXCEPT !.ie = TRUE, !.want = FALSE] ELSE p
PRead(s, n, ts) ==      \* <<machine, data>>
  LET p == s.pio[n] IN
  IF p.out THEN << s, p.dout >>
  ELSE IF p.rdy THEN << Ready(s, n, ts + 3), p.din >>
  ELSE << Ready([s EXCEPT !.pio[n].rdy = TRUE], n, ts + 1), p.din >>
PData(s, n, v, ts) ==
  LET s1 == [s EXCEPT !.pio[n].dout = v] IN
  IF ~s.pio[n].out THEN s1
  ELSE IF s.pio[n].rdy
       THEN LET r == Strobe(s1, n, ts)
            IN IF r[2] = 1 THEN Give(PInt(r[1], n), n, v, ts + 1) ELSE Give(r[1], n, v, ts + 3)
       ELSE Give([s1 EXCEPT !.pio[n].rdy = TRUE], n, v, ts + 1)
PControl(s, n, v, ts) ==
  CASE v % 2 = 0 -> [s EXCEPT !.pio[n].vec = v]
    [] v % 16 = 15 /\ v \div 64 = 0 -> [Drive([s EXCEPT !.pio[n].rdy = FALSE], n, s.pio[n].dout, ts) EXCEPT !.pio[n].out = TRUE]
    [] v % 16 = 15 /\ v \div 64 = 1 -> [Float([s EXCEPT !.pio[n].rdy = TRUE], n, ts) EXCEPT !.pio[n].out = FALSE]
    [] v % 16 = 3 -> IF v > 127 THEN [s EXCEPT !.pio[n].want = @ \/ ~s.pio[n].ie]
                     ELSE [s EXCEPT !.pio[n].want = FALSE, !.pio[n].ie = FALSE, !.pio[n].ia = FALSE]
    [] OTHER -> s
PReset(s, n, ts) ==
  Float([s EXCEPT !.pio[n] = [@ EXCEPT !.out = FALSE, !.want = FALSE, !.ie = FALSE, !.ia = FALSE, !.rdy = TRUE, !.din = 0, !.dout = 0]], n, ts)

----------------------------------------------------------------------------
(* Port decoding.  ports: << memory mask, bits, CTC mask, bits, CS1 bit, CS0 bit, PIO mask, bits, channel bit, control bit >> *)
Who(s, port) ==
  LET q == s.ports IN
  IF And16(port, q[1]) = q[2] THEN "mem"
  ELSE IF And16(port, q[3]) = q[4] THEN "ctc"
  ELSE IF And16(port, q[7]) = q[8] THEN "pio" ELSE "none"
CtcOf(s, port) == 1 + (2 * Bit(port, s.ports[5])) + Bit(port, s.ports[6])
PioOf(s, port) == 1 + Bit(port, s.ports[9])

(* Every call: the set of << machine after it, result >>. *)
One(s, r) == { << s, r >> }
M1(s, pc, ts) ==
  { << [t EXCEPT !.pio = << PM1(t.pio[1]), PM1(t.pio[2]) >>, !.mem = Fetching(@, pc)], Peek(Fetching(t.mem, pc), pc) >>
    : t \in PollCtc(s, ts) }
In(s, port, ts) ==
  LET w == Who(s, port) IN
  CASE w = "mem" -> One(s, s.mem.sel)
    [] w = "ctc" -> LET t == Touched(Update(s, CtcOf(s, port), ts)) IN One(t, t.ch[CtcOf(s, port)].cur)
    [] w = "pio" -> LET r == PRead(s, PioOf(s, port), ts) IN One(r[1], r[2])
    [] OTHER -> One(s, 255)
OutPort(s, port, v, ts) ==
  LET w == Who(s, port) IN
  CASE w = "mem" -> One([s EXCEPT !.mem.sel = v], 0)
    [] w = "ctc" -> LET c == CtcOf(s, port)   t == Touched(Update(s, c, ts))
                    IN IF t.ch[c].wait THEN One([t EXCEPT !.ch[c] = Constant(@, v, ts)], 0)
                       ELSE IF v % 2 = 1 THEN One(Out(t, c, Control(t.ch[c], v, ts)), 0)
                       ELSE One([t EXCEPT !.vec = (v \div 8) * 8], 0)
    [] w = "pio" -> One(IF Bit(port, s.ports[10]) = 0 THEN PData(s, PioOf(s, port), v, ts) ELSE PControl(s, PioOf(s, port), v, ts), 0)
    [] OTHER -> One(s, 0)
(* priority: CTC channels 0..3, PIO A, PIO B; a device being served holds back itself and those after it *)
PioIrq(s, ts) ==
  IF s.pieo THEN << s, 0 >>
  ELSE LET a == CheckInt(s, 1, ts) IN
       IF a.pio[1].ia THEN << a, 1 >>
       ELSE LET b == CheckInt(a, 2, ts) IN << b, IF b.pio[2].ia THEN 1 ELSE 0 >>
Irq(s, ts) ==
  IF s.ieo THEN One(s, 0)
  ELSE { (IF \E c \in 1..4 : t.ch[c].ia THEN << t, 1 >> ELSE PioIrq(t, ts)) : t \in PollCtc(s, ts) }
Ack(s) ==
  LET C == { c \in 1..4 : s.ch[c].ia }   P == { n \in 1..2 : s.pio[n].ia } IN
  IF C # {} THEN LET c == CHOOSE c \in C : \A d \in C : c <= d
                 IN One([s EXCEPT !.ieo = TRUE, !.ch[c].ia = FALSE], s.vec + 2 * (c - 1))
  ELSE IF P # {} THEN LET n == CHOOSE n \in P : \A d \in P : n <= d
                      IN One([s EXCEPT !.ieo = FALSE, !.pieo = TRUE, !.pio[n].ia = FALSE], s.pio[n].vec)
  ELSE One([s EXCEPT !.ieo = FALSE], 255)
Reti(s) == IF s.ieo THEN [s EXCEPT !.ieo = FALSE] ELSE [s EXCEPT !.pieo = FALSE]
ChReset(c) == [c EXCEPT !.restart = None, !.last = None, !.ext = None, !.sub = 256, !.counter = FALSE, !.wait = FALSE, !.ie = FALSE, !.ia = FALSE, !.hint = 0]
Reset(s, ts) ==
  LET t == Update(Update(Update(Update(s, 1, ts), 2, ts), 3, ts), 4, ts)
      u == [t EXCEPT !.ieo = FALSE, !.hint = 0, !.pieo = FALSE, !.ch = [c \in 1..4 |-> ChReset(@[c])]]
  IN PReset(PReset(u, 1, ts), 2, ts)
Second(s, d) ==
  [s EXCEPT !.hint = Sooner(@, d), !.ch = [c \in 1..4 |-> [@[c] EXCEPT !.hint = Sooner(@, d), !.last = IF @ = None THEN None ELSE @ - d,
                                                !.ext = IF @ = None THEN None ELSE Sooner(@, d),
                                                !.trig = TrgSecond(@, d)]]]
RECURSIVE Copies(_, _, _)
Copies(n, len, k) == IF n = 0 THEN <<>> ELSE Append(Copies(n - 1, len, k), << len, k + n >>)
(* e: <<call, x, y, ts, ...>> *)
Call(s, e) ==
  LET x == e[2]   y == e[3]   ts == e[4] IN
  CASE e[1] = "fetch" -> M1(s, x, ts)
    [] e[1] = "rd"   -> One(s, Peek(s.mem, x))
    [] e[1] = "rd16" -> One(s, Peek16(s.mem, x))
    [] e[1] = "dbg"  -> One(s, [i \in 1..Min2(y, 65535 - x) |-> Peek(s.mem, x + i - 1)])
    [] e[1] = "wr"   -> One([s EXCEPT !.mem = Poke(@, x, y)], 0)
    [] e[1] = "in"   -> In(s, x, ts)
    [] e[1] = "out"  -> OutPort(s, x, y, ts)
    [] e[1] = "irq"  -> Irq(s, ts)
    [] e[1] = "ack"  -> Ack(s)
    [] e[1] = "reti" -> One(Reti(s), 0)
    [] e[1] = "reset" -> One(Reset(s, ts), 0)
    [] e[1] = "fend" -> { << CheckInt(CheckInt(t, 1, ts), 2, ts), 0 >> : t \in PollCtc(s, ts) }
    [] e[1] = "sec"  -> One(Second(s, x), 0)
    [] e[1] = "attach" -> One([s EXCEPT !.mem.ex = Append(@, << x, y >>)], Len(s.mem.ex) + 1)
    [] e[1] = "many" -> LET n == Min2(x, Free(s.mem)) IN One([s EXCEPT !.mem.ex = @ \o Copies(n, 8192, y)], n)
    [] e[1] = "eject" -> One([s EXCEPT !.mem.ex = <<>>], Len(s.mem.ex))
    [] e[1] = "slots" -> One(s, Free(s.mem))
=============================================================================
