--------------------------------- MODULE Z80 ---------------------------------
(***************************************************************************)
(* The Z80 as a state machine.                                             *)
(*                                                                         *)
(* The state is a CPU record (all programmer-visible registers, the hidden *)
(* MEMPTR and Q registers, the interrupt flip-flops, HALT, the after-EI    *)
(* latch and the pending 0xDD/0xFD prefix).  A transition is one call of   *)
(* the public interface: execute_next, irq, nmi, execute_instruction, ...  *)
(*                                                                         *)
(* A transition is described machine cycle by machine cycle.  Its working  *)
(* record s carries                                                        *)
(*    c    the CPU                                                         *)
(*    ts   the host clock, in T-states                                     *)
(*    bus  the sequence of accesses made to the host memory and I/O        *)
(*    clk  the sequence of advances of the host clock                      *)
(*    in   what the host answers (open system): the n-th value read        *)
(*    n    how many values were read,  v / t  the last value / timestamp   *)
(*    code the bytes of the instruction as presented to a debugger         *)
(*    out  0 finished, 1 HALT, 2 write break, 3 RETI break                 *)
(***************************************************************************)
EXTENDS Z80ALU

NMOS == 0
CMOS == 1
BM1  == 2
OWN  == 3   \* a flavour defined by the user of the library, with hooks of its own

---------------------------------------------------------------------------
(* CPU <-> vector, the projection logged by the harness *)
Cpu(v) == [ a |-> v[1], f |-> v[2], b |-> v[3], c |-> v[4], d |-> v[5], e |-> v[6],
            h |-> v[7], l |-> v[8], af2 |-> v[9], bc2 |-> v[10], de2 |-> v[11], hl2 |-> v[12],
            ix |-> v[13], iy |-> v[14], sp |-> v[15], pc |-> v[16], mp |-> v[17],
            i |-> v[18], r |-> v[19], iff1 |-> v[20], iff2 |-> v[21], im |-> v[22],
            halt |-> v[23], ei |-> v[24], px |-> v[25], q |-> v[26] ]
CpuFields == << "a","f","b","c","d","e","h","l","af2","bc2","de2","hl2","ix","iy","sp","pc","mp",
                "i","r","iff1","iff2","im","halt","ei","px","q" >>
Vec(c) == << c.a, c.f, c.b, c.c, c.d, c.e, c.h, c.l, c.af2, c.bc2, c.de2, c.hl2, c.ix, c.iy,
             c.sp, c.pc, c.mp, c.i, c.r, c.iff1, c.iff2, c.im, c.halt, c.ei, c.px, c.q >>
DefaultCpu == Cpu([k \in 1..26 |-> 0])
ResetCpu == [DefaultCpu EXCEPT !.a = 255, !.f = 255, !.af2 = 65535, !.sp = 65535]

(* fl: flavour; irq: IRQ line; iv/iw: interrupt data and its wait states;
   pv/pw: port input value / wait states of port input;
   ow/ob: wait states / break request of port output; rb: break request of RETI;
   cont: contention parameter of the host clock;
   line, ua: the IRQ line over time (see Irq)
   mem0, mem: the contents of memory near PC, for a debugger (see Peek) *)
Work(cpu, ts, fl, env, in) ==
  [ c |-> cpu, ts |-> ts, fl |-> fl, env |-> env, in |-> in, n |-> 0, v |-> 0, t |-> 0,
    bus |-> <<>>, clk |-> <<>>, code |-> <<>>, out |-> 0, lq |-> 0, no |-> 0, nr |-> 0, na |-> 0 ]

(* Is the IRQ line active now?  Either a constant, or active in given time intervals,
   or (ua = 1) active from the n-th given time until acknowledged for the n-th time. *)
Irq(s) ==
  \/ s.env.irq = 1
  \/ IF s.env.ua = 1
     THEN s.na + 1 <= Len(s.env.line) /\ s.ts >= s.env.line[s.na + 1][1]
     ELSE \E k \in 1..Len(s.env.line) : s.env.line[k][1] <= s.ts /\ s.ts < s.env.line[k][2]
(* does the n-th (from 0) OUT / RETI request a break?  1 bit each, in the order of requests *)
Asks(mask, n) == n < 30 /\ Bit(mask, n) = 1

BC(c) == W(c.b, c.c)
DE(c) == W(c.d, c.e)
HL(c) == W(c.h, c.l)
IR(c) == W(c.i, c.r)
IncR(r) == (r \div 128) * 128 + ((r + 1) % 128)

---------------------------------------------------------------------------
(* Clock cycles.  Kinds: 1 M1:4, 2 memory:3, 3 I/O:4, 4 IRQ:6, 5 internal:n, 6 wait:n.
   A host clock may stretch any cycle ("contention"): the model of the harness clock. *)
Extra(cont, kind, addr) == IF cont = 0 THEN 0 ELSE ((addr \div 64) + kind) % (cont + 1)
Tick(s, kind, addr, n, dur, at) ==
  LET x == IF kind = 6 THEN 0 ELSE Extra(s.env.cont, kind, addr)
      t0 == s.ts + x
  IN [s EXCEPT !.ts = t0 + dur, !.t = t0 + at, !.clk = Append(@, <<kind, addr, n>>)]
CkM1(s, a)      == Tick(s, 1, a, 0, 4, 4)
CkMem(s, a)     == Tick(s, 2, a, 0, 3, 3)
CkIo(s, p)      == Tick(s, 3, p, 0, 4, 1)
CkIrq(s, a)     == Tick(s, 4, a, 0, 6, 2)
CkInt(s, a, n)  == Tick(s, 5, a, n, n, 0)
CkWait(s, a, n) == IF n = 0 THEN s ELSE Tick(s, 6, a, n, n, 0)

(* Host accesses.  Event: <<kind, addr, value, ts, x>> *)
(* kinds: 1 opcode fetch (x = refresh address), 2 byte read, 3 word read, 4 write,
   5 port read, 6 port write, 7 interrupt acknowledge, 8 RETI *)
In(s) == IF s.n + 1 <= Len(s.in) THEN s.in[s.n + 1] ELSE 0
Acc(s, kind, addr, val, x) == [s EXCEPT !.bus = Append(@, <<kind, addr, val, s.t, x>>)]
Got(s, kind, addr, x) ==
  LET val == IF kind = 3 THEN In(s) ELSE U8(In(s)) IN
  [s EXCEPT !.bus = Append(@, <<kind, addr, val, s.t, x>>), !.v = val, !.n = @ + 1]
(* a look at memory which is not an access: hosts may be asked or not, only a debugger
   depends on the answer; env.mem holds what memory holds from env.mem0 on *)
Peek(s, addr) == LET k == U16(addr + 65536 - s.env.mem0) + 1 IN
  [s EXCEPT !.v = IF k <= Len(s.env.mem) THEN s.env.mem[k] ELSE 0]
Push1(s, b) == [s EXCEPT !.code = Append(@, b)]

Rd(s, addr) == Got(CkMem(s, addr), 2, addr, 0)
Wr(s, addr, val) == Acc(CkMem(s, addr), 4, addr, val, 0)
(* a word read is presented to the host once, with the timestamp of its first cycle *)
Rd16(s, addr) == LET s1 == Got(CkMem(s, addr), 3, addr, 0)
                 IN CkMem(s1, U16(addr + 1))
(* M1: refresh counter first, then the fetch *)
M1(s) ==
  LET s0 == [s EXCEPT !.c.r = IncR(@)]
      s1 == Got(CkM1(s0, s.c.pc), 1, s.c.pc, IR(s0.c))
  IN Push1([s1 EXCEPT !.c.pc = U16(@ + 1)], s1.v)
Imm8(s) == LET s1 == Rd(s, s.c.pc) IN Push1([s1 EXCEPT !.c.pc = U16(@ + 1)], s1.v)
Imm16(s) == LET s1 == Rd16(s, s.c.pc)
            IN Push1(Push1([s1 EXCEPT !.c.pc = U16(@ + 2)], Lo(s1.v)), Hi(s1.v))
Pop(s) == LET s1 == Rd16(s, s.c.sp) IN [s1 EXCEPT !.c.sp = U16(@ + 2)]
PushW(s, w) ==
  LET a1 == U16(s.c.sp - 1)  a2 == U16(s.c.sp - 2)
  IN [Wr(Wr(s, a1, Hi(w)), a2, Lo(w)) EXCEPT !.c.sp = a2]
InPort(s, p) ==
  LET s1 == Got(CkIo(s, p), 5, p, 0) IN CkWait(s1, p, s.env.pw)
OutPort(s, p, val) ==
  LET s1 == Acc(CkIo(s, p), 6, p, val, 0)
      s2 == CkWait(s1, p, s.env.ow)
        s3 == [s2 EXCEPT !.no = @ + 1]
  IN IF Asks(s.env.ob, s.no) THEN [s3 EXCEPT !.out = 2] ELSE s3

---------------------------------------------------------------------------
(* Registers *)
Index(s, px) == IF px = 221 THEN s.c.ix ELSE IF px = 253 THEN s.c.iy ELSE HL(s.c)
SetIndex(s, px, w) ==
  IF px = 221 THEN [s EXCEPT !.c.ix = w]
  ELSE IF px = 253 THEN [s EXCEPT !.c.iy = w]
  ELSE [s EXCEPT !.c.h = Hi(w), !.c.l = Lo(w)]
GetR(s, r, px) ==
  IF r = 7 THEN s.c.a ELSE IF r = 0 THEN s.c.b ELSE IF r = 1 THEN s.c.c
  ELSE IF r = 2 THEN s.c.d ELSE IF r = 3 THEN s.c.e
  ELSE IF r = 4 THEN Hi(Index(s, px)) ELSE Lo(Index(s, px))
SetR(s, r, px, val) ==
  IF r = 7 THEN [s EXCEPT !.c.a = val] ELSE IF r = 0 THEN [s EXCEPT !.c.b = val]
  ELSE IF r = 1 THEN [s EXCEPT !.c.c = val] ELSE IF r = 2 THEN [s EXCEPT !.c.d = val]
  ELSE IF r = 3 THEN [s EXCEPT !.c.e = val]
  ELSE IF r = 4 THEN SetIndex(s, px, W(val, Lo(Index(s, px))))
  ELSE SetIndex(s, px, W(Hi(Index(s, px)), val))
GetRP(s, p, px) == IF p = 0 THEN BC(s.c) ELSE IF p = 1 THEN DE(s.c)
                   ELSE IF p = 2 THEN Index(s, px) ELSE s.c.sp
SetRP(s, p, px, w) ==
  IF p = 0 THEN [s EXCEPT !.c.b = Hi(w), !.c.c = Lo(w)]
  ELSE IF p = 1 THEN [s EXCEPT !.c.d = Hi(w), !.c.e = Lo(w)]
  ELSE IF p = 2 THEN SetIndex(s, px, w) ELSE [s EXCEPT !.c.sp = w]
Cond(f, y) ==
  CASE y = 0 -> ZF(f) = 0 [] y = 1 -> ZF(f) = 1 [] y = 2 -> CF(f) = 0 [] y = 3 -> CF(f) = 1
    [] y = 4 -> PF(f) = 0 [] y = 5 -> PF(f) = 1 [] y = 6 -> SF(f) = 0 [] y = 7 -> SF(f) = 1

(* flag-changing instructions also mark Q *)
(* what a flavour decides, and what it is told.  The flavour OWN also counts the
   instructions and acceptances it is told about, modulo 64, in the upper bits of Q *)
Begin(fl, q) == IF fl = OWN THEN 2 * ((q \div 2 + 1) % 64) ELSE 0
Mark(fl, q) == IF fl = CMOS THEN 0 ELSE IF q % 2 = 0 THEN q + 1 ELSE q
FlavourReset(fl) == IF fl = OWN THEN 43 ELSE 0
ConstOut(fl) == IF fl = CMOS THEN 255 ELSE IF fl = OWN THEN 90 ELSE 0
LosesPV(fl) == fl \in {NMOS, OWN}
(* OWN spreads every bit of what it is told over what it answers *)
Turn(v, n) == ((v * 2^n) % 256) + (v \div 2^(8 - n))
Spread(v) == Xor8(Xor8(v, Turn(v, 1)), Xor8(Turn(v, 2), Xor8(Turn(v, 4), Turn(v, 5))))
Mix(fl, a, l) == CASE fl = OWN -> W(Xor8(a, Turn(l, 3)), U8(Turn(l, 1) + a + 3))
                   [] fl = BM1 -> W(0, U8(l + 1))
                   [] OTHER -> W(a, U8(l + 1))
XYSource(fl, lq, a, f) == IF fl = OWN THEN Xor8(Spread(a), Spread(U8(f + (IF lq = 1 THEN 7 ELSE 91))))
                          ELSE IF fl = CMOS \/ lq = 1 THEN a ELSE Or8(a, f)
SetF(s, f) == [s EXCEPT !.c.f = f, !.c.q = Mark(s.fl, @)]
AF(s, rf) == [s EXCEPT !.c.a = rf[1], !.c.f = rf[2], !.c.q = Mark(s.fl, @)]
SetMP(s, w) == [s EXCEPT !.c.mp = w]
(* high byte of MEMPTR after LD (rr),A / LD (nn),A / OUT (n),A *)
MixMP(s, addr) == SetMP(s, Mix(s.fl, s.c.a, Lo(addr)))
QVal(s) == XYSource(s.fl, s.lq, s.c.a, s.c.f)

(* (HL) or (IX+d)/(IY+d): s1.v is the address, MEMPTR follows the indexed form *)
EA(s, px) ==
  IF px = 0 THEN [s EXCEPT !.v = HL(s.c)]
  ELSE LET dp == s.c.pc
           s1 == Imm8(s)
           s2 == CkInt(s1, dp, 5)
           ea == U16(Index(s, px) + Sx8(s1.v) + 65536)
       IN [SetMP(s2, ea) EXCEPT !.v = ea]

---------------------------------------------------------------------------
(* 0xCB page *)
ExecCB(s) ==
  LET s1 == M1(s)
      op == s1.v
      x == op \div 64   y == (op \div 8) % 8   z == op % 8
      mem == z = 6
      addr == HL(s.c)
      s2 == IF mem THEN CkInt(Rd(s1, addr), addr, 1) ELSE [s1 EXCEPT !.v = GetR(s1, z, 0)]
      put(t, val) == IF mem THEN Wr(t, addr, val) ELSE SetR(t, z, 0, val)
  IN CASE x = 0 -> LET r == Rot(y, s2.v, s2.c.f) IN put(SetF(s2, r[2]), r[1])
       [] x = 1 -> SetF(s2, BitF(y, s2.v, IF mem THEN Hi(s2.c.mp) ELSE s2.v, s2.c.f))
       [] x = 2 -> put(s2, ResB(y, s2.v))
       [] x = 3 -> put(s2, SetB(y, s2.v))

(* 0xDD 0xCB d op page: results also land in a register *)
ExecXCB(s, px) ==
  LET s1 == Imm8(s)
      ea == U16(Index(s, px) + Sx8(s1.v) + 65536)
      s2 == Imm8(s1)
      op == s2.v
      x == op \div 64   y == (op \div 8) % 8   z == op % 8
      s3 == SetMP(CkInt(s2, s1.c.pc, 2), ea)
      s4 == CkInt(Rd(s3, ea), ea, 1)
      put(t, val) == LET t1 == Wr(t, ea, val) IN IF z = 6 THEN t1 ELSE SetR(t1, z, 0, val)
  IN CASE x = 0 -> LET r == Rot(y, s4.v, s4.c.f) IN put(SetF(s4, r[2]), r[1])
       [] x = 1 -> SetF(s4, BitF(y, s4.v, Hi(ea), s4.c.f))
       [] x = 2 -> put(s4, ResB(y, s4.v))
       [] x = 3 -> put(s4, SetB(y, s4.v))

---------------------------------------------------------------------------
(* block instructions: y = 4 I, 5 D, 6 IR, 7 DR; z = 0 LD, 1 CP, 2 IN, 3 OUT *)
AddBC(s, k) == LET w == U16(BC(s.c) + k + 65536) IN [s EXCEPT !.c.b = Hi(w), !.c.c = Lo(w)]
AddDE(s, k) == LET w == U16(DE(s.c) + k + 65536) IN [s EXCEPT !.c.d = Hi(w), !.c.e = Lo(w)]
AddHL(s, k) == LET w == U16(HL(s.c) + k + 65536) IN [s EXCEPT !.c.h = Hi(w), !.c.l = Lo(w)]
Again(s) == [s EXCEPT !.c.pc = U16(@ + 65534)]
ExecBlk(s, y, z) ==
  LET k == IF y % 2 = 0 THEN 1 ELSE -1
      rep == y >= 6
      hl == HL(s.c)  de == DE(s.c)  bc == BC(s.c)
  IN CASE z = 0 ->
            LET s1 == Rd(s, hl)
                s2 == CkInt(Wr(s1, de, s1.v), de, 2)
                s3 == AddBC(AddDE(AddHL(s2, k), k), -1)
                s4 == SetF(s3, LdiF(s.c.a, s1.v, BC(s3.c), s.c.f))
            IN IF rep /\ BC(s3.c) # 0
               THEN Again(SetMP(CkInt(s4, de, 5), U16(s.c.pc + 65535)))
               ELSE s4
       [] z = 1 ->
            LET s1 == Rd(s, hl)
                s2 == CkInt(s1, hl, 5)
                s3 == AddBC(AddHL(s2, k), -1)
                s4 == SetF(s3, CpiF(s.c.a, s1.v, BC(s3.c), s.c.f))
            IN IF rep /\ BC(s3.c) # 0 /\ s.c.a # s1.v
               THEN Again(SetMP(CkInt(s4, hl, 5), U16(s.c.pc + 65535)))
               ELSE SetMP(s4, U16(s.c.mp + k + 65536))
       [] z = 2 ->
            LET s1 == InPort(CkInt(s, IR(s.c), 1), bc)
                s2 == SetMP(Wr(s1, hl, s1.v), U16(bc + k + 65536))
                b1 == U8(s.c.b + 255)
                s3 == AddHL([s2 EXCEPT !.c.b = b1], k)
                s4 == SetF(s3, IoBlkF(s1.v, b1, U8(s.c.c + k + 256)))
            IN IF rep /\ b1 # 0 THEN Again(CkInt(s4, hl, 5)) ELSE s4
       [] z = 3 ->
            LET s1 == Rd(CkInt(s, IR(s.c), 1), hl)
                b1 == U8(s.c.b + 255)
                bc1 == W(b1, s.c.c)
                s2 == AddHL([s1 EXCEPT !.c.b = b1], k)
                s3 == SetMP(SetF(s2, IoBlkF(s1.v, b1, s2.c.l)), U16(bc1 + k + 65536))
                s4 == OutPort(s3, bc1, s1.v)
            IN IF rep /\ b1 # 0 THEN Again(CkInt(s4, bc1, 5)) ELSE s4

(* 0xED page *)
ImOf(y) == CASE y % 4 = 0 -> 0 [] y % 4 = 1 -> 0 [] y % 4 = 2 -> 1 [] y % 4 = 3 -> 2
LdAIR(s, val) ==
  LET s1 == CkInt(s, IR(s.c), 1)
      taken == LosesPV(s.fl) /\ s.c.iff1 = 1 /\ Irq(s1)
      pv == IF s.c.iff2 = 1 /\ ~taken THEN 4 ELSE 0
  IN SetF([s1 EXCEPT !.c.a = val], SZXY[val] + pv + CF(s.c.f))
ExecED(s) ==
  LET s1 == M1(s)
      op == s1.v
      x == op \div 64   y == (op \div 8) % 8   z == op % 8   p == y \div 2   q == y % 2
  IN CASE x = 2 /\ y >= 4 /\ z <= 3 -> ExecBlk(s1, y, z)
       [] x = 1 /\ z = 0 ->
            LET s2 == InPort(s1, BC(s1.c))
                s3 == SetMP(SetF(s2, InF(s2.v, s2.c.f)), U16(BC(s1.c) + 1))
            IN IF y = 6 THEN s3 ELSE SetR(s3, y, 0, s2.v)
       [] x = 1 /\ z = 1 ->
            LET val == IF y = 6 THEN ConstOut(s.fl) ELSE GetR(s1, y, 0)
            IN OutPort(SetMP(s1, U16(BC(s1.c) + 1)), BC(s1.c), val)
       [] x = 1 /\ z = 2 ->
            LET s2 == SetMP(CkInt(s1, IR(s1.c), 7), U16(HL(s1.c) + 1))
                r == IF q = 0 THEN Sbc16(HL(s1.c), GetRP(s1, p, 0), s1.c.f)
                              ELSE Adc16(HL(s1.c), GetRP(s1, p, 0), s1.c.f)
            IN SetIndex(SetF(s2, r[2]), 0, r[1])
       [] x = 1 /\ z = 3 ->
            LET s2 == Imm16(s1)
                nn == s2.v
                s3 == SetMP(s2, U16(nn + 1))
                w == GetRP(s3, p, 0)
            IN IF q = 0
               THEN Wr(Wr(s3, nn, Lo(w)), U16(nn + 1), Hi(w))
               ELSE LET s4 == Rd16(s3, nn) IN SetRP(s4, p, 0, s4.v)
       [] x = 1 /\ z = 4 -> AF(s1, Neg(s1.c.a))
       [] x = 1 /\ z = 5 ->
            LET rt == IF op = 77
                      THEN LET t == [s1 EXCEPT !.t = s1.ts]
                               t1 == Acc(t, 8, s1.c.pc, 0, 0)
                               t2 == [t1 EXCEPT !.nr = @ + 1]
                           IN IF Asks(s1.env.rb, s1.nr) THEN [t2 EXCEPT !.out = 3] ELSE t2
                      ELSE s1
                s2 == Pop(rt)
            IN [s2 EXCEPT !.c.pc = s2.v, !.c.mp = s2.v, !.c.iff1 = s2.c.iff2]
       [] x = 1 /\ z = 6 -> [s1 EXCEPT !.c.im = ImOf(y)]
       [] x = 1 /\ z = 7 /\ y = 0 -> [CkInt(s1, IR(s1.c), 1) EXCEPT !.c.i = s1.c.a]
       [] x = 1 /\ z = 7 /\ y = 1 -> [CkInt(s1, IR(s1.c), 1) EXCEPT !.c.r = s1.c.a]
       [] x = 1 /\ z = 7 /\ y = 2 -> LdAIR(s1, s1.c.i)
       [] x = 1 /\ z = 7 /\ y = 3 -> LdAIR(s1, s1.c.r)
       [] x = 1 /\ z = 7 /\ y \in {4, 5} ->
            LET hl == HL(s1.c)
                s2 == CkInt(Rd(s1, hl), hl, 4)
                r == IF y = 4 THEN Rrd(s1.c.a, s2.v, s1.c.f) ELSE Rld(s1.c.a, s2.v, s1.c.f)
                s3 == SetMP(Wr(s2, hl, r[2]), U16(hl + 1))
            IN AF(s3, <<r[1], r[3]>>)
       [] OTHER -> s1

---------------------------------------------------------------------------
Jump(s, w) == [s EXCEPT !.c.pc = w, !.c.mp = w]
(* relative jump: a condition not met still spends the operand cycle, without a read *)
Rel(s, taken) ==
  LET dp == s.c.pc IN
  IF taken
  THEN LET s1 == Imm8(s)
           s2 == CkInt(s1, dp, 5)
       IN Jump(s2, U16(s1.c.pc + Sx8(s1.v) + 65536))
  ELSE LET s1 == Peek(CkMem(s, dp), dp)
       IN Push1([s1 EXCEPT !.c.pc = U16(@ + 1)], s1.v)

(* does the opcode use H, L, HL or (HL), so that a prefix applies to it? *)
Affected(op) ==
  LET x == op \div 64   y == (op \div 8) % 8   z == op % 8   p == y \div 2   q == y % 2
  IN CASE x = 0 -> \/ z = 1 /\ (q = 1 \/ p = 2)
                   \/ z = 2 /\ p = 2
                   \/ z = 3 /\ p = 2
                   \/ z \in {4, 5, 6} /\ y \in {4, 5, 6}
       [] x = 1 -> op # 118 /\ (y \in {4, 5, 6} \/ z \in {4, 5, 6})
       [] x = 2 -> z \in {4, 5, 6}
       [] x = 3 -> op \in {203, 225, 227, 229, 233, 249}

ExecX0(s, op, px) ==
  LET y == (op \div 8) % 8   z == op % 8   p == y \div 2   q == y % 2   f == s.c.f
  IN CASE z = 0 ->
            (CASE y = 0 -> s
               [] y = 1 -> [s EXCEPT !.c.a = Hi(s.c.af2), !.c.f = Lo(s.c.af2), !.c.af2 = W(s.c.a, f)]
               [] y = 2 -> LET s1 == [CkInt(s, IR(s.c), 1) EXCEPT !.c.b = U8(@ + 255)]
                           IN Rel(s1, s1.c.b # 0)
               [] y = 3 -> Rel(s, TRUE)
               [] OTHER -> Rel(s, Cond(f, y - 4)))
       [] z = 1 ->
            IF q = 0 THEN LET s1 == Imm16(s) IN SetRP(s1, p, px, s1.v)
            ELSE LET w == Index(s, px)
                     r == Add16(w, GetRP(s, p, px), f)
                     s1 == SetMP(CkInt(s, IR(s.c), 7), U16(w + 1))
                 IN SetIndex(SetF(s1, r[2]), px, r[1])
       [] z = 2 ->
            (CASE p = 0 \/ p = 1 ->
                    LET w == GetRP(s, p, 0) IN
                    IF q = 0 THEN Wr(MixMP(s, w), w, s.c.a)
                    ELSE LET s1 == Rd(SetMP(s, U16(w + 1)), w) IN [s1 EXCEPT !.c.a = s1.v]
               [] p = 2 ->
                    LET s1 == Imm16(s)
                        nn == s1.v
                        s2 == SetMP(s1, U16(nn + 1))
                        w == Index(s2, px)
                    IN IF q = 0 THEN Wr(Wr(s2, nn, Lo(w)), U16(nn + 1), Hi(w))
                       ELSE LET s3 == Rd16(s2, nn) IN SetIndex(s3, px, s3.v)
               [] p = 3 ->
                    LET s1 == Imm16(s)
                        nn == s1.v
                    IN IF q = 0 THEN Wr(MixMP(s1, nn), nn, s1.c.a)
                       ELSE LET s2 == Rd(SetMP(s1, U16(nn + 1)), nn) IN [s2 EXCEPT !.c.a = s2.v])
       [] z = 3 -> LET s1 == CkInt(s, IR(s.c), 2)
                   IN SetRP(s1, p, px, U16(GetRP(s, p, px) + (IF q = 0 THEN 1 ELSE 65535)))
       [] z = 4 \/ z = 5 ->
            IF y = 6
            THEN LET s1 == EA(s, px)
                     ea == s1.v
                     s2 == CkInt(Rd(s1, ea), ea, 1)
                     r == IF z = 4 THEN Inc8(s2.v, f) ELSE Dec8(s2.v, f)
                 IN Wr(SetF(s2, r[2]), ea, r[1])
            ELSE LET v == GetR(s, y, px)
                     r == IF z = 4 THEN Inc8(v, f) ELSE Dec8(v, f)
                 IN SetR(SetF(s, r[2]), y, px, r[1])
       [] z = 6 ->
            IF y # 6 THEN LET s1 == Imm8(s) IN SetR(s1, y, px, s1.v)
            ELSE IF px = 0
            THEN LET s1 == Imm8(s) IN Wr(s1, HL(s.c), s1.v)
            ELSE LET s1 == Imm8(s)
                     ea == U16(Index(s, px) + Sx8(s1.v) + 65536)
                     s2 == Imm8(s1)
                     s3 == SetMP(CkInt(s2, s1.c.pc, 2), ea)
                 IN Wr(s3, ea, s2.v)
       [] z = 7 ->
            (CASE y <= 3 -> AF(s, RotA(y, s.c.a, f))
               [] y = 4 -> AF(s, Daa(s.c.a, f))
               [] y = 5 -> AF(s, Cpl(s.c.a, f))
               [] y = 6 -> SetF(s, Scf(QVal(s), f))
               [] y = 7 -> SetF(s, Ccf(QVal(s), f)))

ExecX1(s, op, px) ==
  LET y == (op \div 8) % 8   z == op % 8
  IN IF op = 118 THEN [s EXCEPT !.c.pc = U16(@ + 65535), !.c.halt = 1, !.out = 1]
     ELSE IF z = 6 THEN LET s1 == EA(s, px)
                            s2 == Rd(s1, s1.v)
                        IN SetR(s2, y, 0, s2.v)
     ELSE IF y = 6 THEN LET s1 == EA(s, px) IN Wr(s1, s1.v, GetR(s, z, 0))
     ELSE SetR(s, y, px, GetR(s, z, px))

ExecX2(s, op, px) ==
  LET y == (op \div 8) % 8   z == op % 8
  IN IF z = 6 THEN LET s1 == EA(s, px)
                       s2 == Rd(s1, s1.v)
                   IN AF(s2, Alu(y, s.c.a, s2.v, s.c.f))
     ELSE AF(s, Alu(y, s.c.a, GetR(s, z, px), s.c.f))

ExecX3(s, op, px) ==
  LET y == (op \div 8) % 8   z == op % 8   p == y \div 2   q == y % 2   f == s.c.f
      ret(t) == LET t1 == Pop(t) IN Jump(t1, t1.v)
      call(t, target) == LET t1 == CkInt(t, U16(t.c.pc + 65535), 1)
                         IN Jump(PushW(t1, t.c.pc), target)
  IN CASE z = 0 -> LET s1 == CkInt(s, IR(s.c), 1) IN IF Cond(f, y) THEN ret(s1) ELSE s1
       [] z = 1 /\ q = 0 ->
            LET s1 == Pop(s) IN
            IF p = 3 THEN [s1 EXCEPT !.c.a = Hi(s1.v), !.c.f = Lo(s1.v)]
            ELSE SetRP(s1, p, px, s1.v)
       [] z = 1 /\ q = 1 ->
            (CASE p = 0 -> ret(s)
               [] p = 1 -> [s EXCEPT !.c.b = Hi(s.c.bc2), !.c.c = Lo(s.c.bc2), !.c.d = Hi(s.c.de2),
                              !.c.e = Lo(s.c.de2), !.c.h = Hi(s.c.hl2), !.c.l = Lo(s.c.hl2),
                              !.c.bc2 = BC(s.c), !.c.de2 = DE(s.c), !.c.hl2 = HL(s.c)]
               [] p = 2 -> [s EXCEPT !.c.pc = Index(s, px)]
               [] p = 3 -> [CkInt(s, IR(s.c), 2) EXCEPT !.c.sp = Index(s, px)])
       [] z = 2 -> LET s1 == Imm16(s)
                       s2 == SetMP(s1, s1.v)
                   IN IF Cond(f, y) THEN Jump(s2, s1.v) ELSE s2
       [] z = 3 ->
            (CASE y = 0 -> LET s1 == Imm16(s) IN Jump(s1, s1.v)
               [] y = 1 -> IF px = 0 THEN ExecCB(s) ELSE ExecXCB(s, px)
               [] y = 2 -> LET s1 == Imm8(s)
                               port == W(s1.c.a, s1.v)
                           IN OutPort(MixMP(s1, port), port, s1.c.a)
               [] y = 3 -> LET s1 == Imm8(s)
                               port == W(s1.c.a, s1.v)
                               s2 == InPort(SetMP(s1, U16(port + 1)), port)
                           IN [s2 EXCEPT !.c.a = s2.v]
               [] y = 4 -> LET sp == s.c.sp
                               s1 == Rd16(s, sp)
                               val == s1.v
                               s2 == CkInt(s1, U16(sp + 1), 1)
                               w == Index(s, px)
                               s3 == Wr(Wr(s2, U16(sp + 1), Hi(w)), sp, Lo(w))
                               s4 == CkInt(s3, sp, 2)
                           IN SetIndex(SetMP(s4, val), px, val)
               [] y = 5 -> [s EXCEPT !.c.d = s.c.h, !.c.e = s.c.l, !.c.h = s.c.d, !.c.l = s.c.e]
               [] y = 6 -> [s EXCEPT !.c.iff1 = 0, !.c.iff2 = 0]
               [] y = 7 -> [s EXCEPT !.c.iff1 = 1, !.c.iff2 = 1, !.c.ei = 1])
       [] z = 4 -> LET s1 == Imm16(s)
                       s2 == SetMP(s1, s1.v)
                   IN IF Cond(f, y) THEN call(s2, s1.v) ELSE s2
       [] z = 5 /\ q = 0 ->
            LET s1 == CkInt(s, IR(s.c), 1)
            IN PushW(s1, IF p = 3 THEN W(s.c.a, f) ELSE GetRP(s, p, px))
       [] z = 5 /\ q = 1 ->
            (CASE p = 0 -> LET s1 == Imm16(s) IN call(SetMP(s1, s1.v), s1.v)
               [] p = 2 -> ExecED(s))
       [] z = 6 -> LET s1 == Imm8(s) IN AF(s1, Alu(y, s.c.a, s1.v, f))
       [] z = 7 -> LET s1 == CkInt(s, IR(s.c), 1) IN Jump(PushW(s1, s.c.pc), 8 * y)

(* one instruction, its first byte already known *)
Exec(s, op) ==
  LET s0 == [s EXCEPT !.lq = s.c.q % 2, !.c.q = Begin(s.fl, @), !.c.ei = 0, !.c.halt = 0]
  IN IF op = 221 \/ op = 253 THEN [s0 EXCEPT !.c.px = op, !.code = <<>>]
     ELSE LET px == IF Affected(op) THEN s.c.px ELSE 0
              s1 == [s0 EXCEPT !.c.px = 0, !.code = IF px = 0 THEN <<op>> ELSE <<px, op>>]
              x == op \div 64
          IN IF x = 0 THEN ExecX0(s1, op, px)
             ELSE IF x = 1 THEN ExecX1(s1, op, px)
             ELSE IF x = 2 THEN ExecX2(s1, op, px)
             ELSE ExecX3(s1, op, px)

---------------------------------------------------------------------------
(* Interrupts *)
NoShadow(c) == c.px = 0 /\ c.ei = 0
IrqAllowed(c) == c.iff1 = 1 /\ NoShadow(c)
NmiAllowed(c) == NoShadow(c)
WakePC(c) == IF c.halt = 1 THEN U16(c.pc + 1) ELSE c.pc

AcceptIrq(s) ==
  LET pc == WakePC(s.c)
      s1 == [s EXCEPT !.c.iff1 = 0, !.c.iff2 = 0, !.c.r = IncR(@), !.c.halt = 0, !.c.pc = pc]
      s2 == [Got(CkIrq(s1, pc), 7, pc, 0) EXCEPT !.na = @ + 1]
      vec == s2.v
      s3 == CkWait(s2, pc, s.env.iw)
  IN CASE s.c.im = 0 -> Exec(s3, vec)
       [] s.c.im = 1 -> Exec(s3, 255)
       [] s.c.im = 2 ->
            LET s4 == PushW(CkInt(s3, IR(s3.c), 1), pc)
            IN Exec([s4 EXCEPT !.c.pc = W(s.c.i, vec)], 195)
AcceptNmi(s) ==
  LET pc == WakePC(s.c)
      s1 == [s EXCEPT !.c.ei = 0, !.c.iff1 = 0, !.c.r = IncR(@), !.c.halt = 0]
      s2 == CkInt(CkM1(s1, pc), IR(s1.c), 1)
      s3 == PushW(s2, pc)
  IN [s3 EXCEPT !.c.pc = 102, !.c.q = Begin(s.fl, @)]

(* execute_next *)
(* the halted cycle is a NOP: it ends the EI shadow and a pending prefix *)
Idle(s) == [CkM1(s, s.c.pc) EXCEPT !.c.r = IncR(@), !.c.ei = 0, !.c.px = 0]
Fetch(s) == LET s1 == M1(s) IN Exec(s1, s1.v)
Next1(s) ==
  IF IrqAllowed(s.c) /\ Irq(s) THEN AcceptIrq(s)
  ELSE IF s.c.halt = 1 THEN Idle(s)
  ELSE Fetch(s)
(* irq(): <<accepted, s>>;  nmi(): <<accepted, s>> *)
CallIrq(s) == IF IrqAllowed(s.c) THEN <<1, AcceptIrq(s)>> ELSE <<0, s>>
CallNmi(s) == IF NmiAllowed(s.c) THEN <<1, AcceptNmi(s)>> ELSE <<0, s>>

---------------------------------------------------------------------------
(* execute_with_limit: steps until the clock reaches the limit at the end of a step, or a break.
   nothing happens when the limit is already reached. *)
RECURSIVE Run(_, _)
Run(s, limit) == IF s.ts >= limit \/ s.out # 0 THEN s ELSE Run(Next1(s), limit)
(* the same, breaks ignored *)
RECURSIVE RunOn(_, _)
RunOn(s, limit) == IF s.ts >= limit THEN s ELSE RunOn(Next1([s EXCEPT !.out = 0]), limit)
=============================================================================
