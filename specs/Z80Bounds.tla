------------------------------- MODULE Z80Bounds -------------------------------
(***************************************************************************)
(* How much one transition of module Z80 may cost.                         *)
(*                                                                         *)
(* The model enumerates every opcode of every page, with a prefix pending  *)
(* or not, in states covering both outcomes of every condition and every   *)
(* loop, every interrupt acceptance in every mode with every vector, and   *)
(* the idle cycle.  It establishes, for the design,                        *)
(*   - a step takes 4 to 23 T-states (an interrupt up to 2 + 23 more), as  *)
(*     in the table of the manufacturer, never zero: runs end;             *)
(*   - a step makes 1 to 5 accesses to the host;                           *)
(*   - the program counter moves by the length of the instruction unless   *)
(*     it is a jump, HALT or a repeated block instruction;                 *)
(*   - R grows by one per opcode fetch and acknowledge.                    *)
(* StepTrace and LimitTrace then bind the code to the same transitions.    *)
(***************************************************************************)
EXTENDS Z80, TLC, FiniteSets
CONSTANTS Wide   \* TRUE: more states per opcode

Env0 == [ cont |-> 0, irq |-> 0, iw |-> 0, pw |-> 0, ow |-> 0, ob |-> 0, rb |-> 0, line |-> <<>>, ua |-> 0,
          mem0 |-> 0, mem |-> <<>> ]
Env1 == [ Env0 EXCEPT !.irq = 1 ]

(* pages: 0 none, 1 CB, 2 ED, 3 the index page of CB *)
Pages(px) == IF px = 0 THEN {0, 1, 2} ELSE {0, 2, 3}
Bytes(page, op) == CASE page = 0 -> <<op>> [] page = 1 -> <<203, op>> [] page = 2 -> <<237, op>>
                     [] page = 3 -> <<203, 5, op>>

States(px) == { [DefaultCpu EXCEPT !.f = f, !.b = bc \div 256, !.c = bc % 256, !.a = a, !.px = px, !.pc = pc, !.sp = sp,
                                   !.ix = 65533, !.iy = 2, !.h = 1, !.r = r] :
                f \in {0, 255}, bc \in (IF Wide THEN {0, 1, 256, 257, 65535} ELSE {1, 256, 65535}),
                a \in (IF Wide THEN {0, 7, 255} ELSE {7}), pc \in {256, 65535}, sp \in {0, 32768}, r \in {127, 255} }

---------------------------------------------------------------------------
(* T-states of the manufacturer's table, conditions not met / met (or the loop left / continued) *)
Plain == <<
   4,10, 7, 6, 4, 4, 7, 4,    4,11, 7, 6, 4, 4, 7, 4,
   8,10, 7, 6, 4, 4, 7, 4,   12,11, 7, 6, 4, 4, 7, 4,
   7,10,16, 6, 4, 4, 7, 4,    7,11,16, 6, 4, 4, 7, 4,
   7,10,13, 6,11,11,10, 4,    7,11,13, 6, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   7, 7, 7, 7, 7, 7, 4, 7,    4, 4, 4, 4, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   4, 4, 4, 4, 4, 4, 7, 4,    4, 4, 4, 4, 4, 4, 7, 4,
   5,10,10,10,10,11, 7,11,    5,10,10, 0,10,17, 7,11,
   5,10,10,11,10,11, 7,11,    5, 4,10,11,10, 4, 7,11,
   5,10,10,19,10,11, 7,11,    5, 4,10, 4,10, 0, 7,11,
   5,10,10, 4,10,11, 7,11,    5, 6,10, 4,10, 4, 7,11 >>
(* more when the branch is taken *)
Taken(op) == CASE op \in {16, 32, 40, 48, 56} -> 5
               [] op % 8 = 0 /\ op >= 192 -> 6
               [] op % 8 = 4 /\ op >= 192 -> 7
               [] OTHER -> 0
(* operations on memory pay for the displacement *)
Indexed(op) == Affected(op) /\ (op \in {52, 53} \/ (op \in 64..191 /\ (op % 8 = 6 \/ op \in 112..119)))
Base(px, page, op) ==
  CASE page = 0 -> (IF px # 0 /\ op = 54 THEN 15
                    ELSE IF px # 0 /\ Indexed(op) THEN Plain[op + 1] + 8 ELSE Plain[op + 1])
    [] page = 1 -> (IF op % 8 # 6 THEN 8 ELSE IF op \in 64..127 THEN 12 ELSE 15)
    [] page = 3 -> (IF op \in 64..127 THEN 16 ELSE 19)
    [] page = 2 -> LET x == op \div 64  y == (op \div 8) % 8  z == op % 8 IN
         IF x = 2 /\ y >= 4 /\ z <= 3 THEN 16
         ELSE IF x # 1 THEN 8
         ELSE CASE z = 0 -> 12 [] z = 1 -> 12 [] z = 2 -> 15 [] z = 3 -> 20 [] z = 4 -> 8 [] z = 5 -> 14 [] z = 6 -> 8
                [] z = 7 -> IF y < 4 THEN 9 ELSE IF y < 6 THEN 18 ELSE 8
More(page, op) == CASE page = 0 -> Taken(op)
                    [] page = 2 -> IF op \div 64 = 2 /\ (op \div 8) % 8 >= 6 /\ op % 8 <= 3 THEN 5 ELSE 0
                    [] OTHER -> 0

(* lengths in bytes, after the prefix *)
Len0(px, op) ==
  LET x == op \div 64   y == (op \div 8) % 8   z == op % 8   q == y % 2
      d == IF px # 0 /\ Indexed(op) THEN 1 ELSE 0
  IN d + (IF x = 0 THEN (IF z = 0 /\ y >= 2 THEN 2 ELSE IF z = 1 /\ q = 0 THEN 3 ELSE IF z = 2 /\ y >= 4 THEN 3
                         ELSE IF z = 6 THEN (IF op = 54 /\ px # 0 THEN 3 ELSE 2) ELSE 1)
          ELSE IF x < 3 THEN 1
          ELSE IF z \in {2, 4} \/ op \in {195, 205} THEN 3
          ELSE IF z = 6 \/ op \in {211, 219} THEN 2 ELSE 1)
Length(px, page, op) ==
  CASE page = 0 -> Len0(px, op)
    [] page = 1 -> 2
    [] page = 3 -> 3
    [] page = 2 -> IF op \div 64 = 1 /\ op % 8 = 3 THEN 4 ELSE 2
Jumps(px, page, op) ==
  \/ page = 0 /\ (op \in {16, 24, 32, 40, 48, 56, 118, 195, 201, 205, 233} \/ (op >= 192 /\ op % 8 \in {0, 2, 4, 7}))
  \/ page = 2 /\ op \div 64 = 1 /\ op % 8 = 5
Repeats(page, op) == page = 2 /\ More(page, op) = 5
Prefixes == {203, 221, 237, 253}

---------------------------------------------------------------------------
VARIABLES what, fl, px, page, op, im, done, ok
vars == <<what, fl, px, page, op, im, done, ok>>

Fetches(s) == Cardinality({ k \in 1..Len(s.bus) : s.bus[k][1] \in {1, 7} })
RDelta(a, b) == ((b % 128) + 128 - (a % 128)) % 128
Accs(s) == Len(s.bus)

InstrOk(c) ==
  LET pre == Bytes(page, op)
      s == Next1(Work(c, 0, fl, Env0, pre \o << 9, 1, 2 >>))
      base == Base(px, page, op)
      fallthrough == U16(c.pc + Length(px, page, op))
  IN /\ s.ts \in { base, base + More(page, op) }
     /\ s.ts >= 4 /\ s.ts <= 23
     /\ Accs(s) >= 1 /\ Accs(s) <= 5
     /\ Jumps(px, page, op) \/ s.c.pc = fallthrough
        \/ (Repeats(page, op) /\ s.c.pc = c.pc /\ s.ts = base + 5)
     \* a branch not taken falls through and costs the lesser time, a taken one the greater
     /\ (Taken(op) > 0 /\ page = 0 /\ s.ts = base) => s.c.pc = fallthrough
     /\ (page = 2 /\ op \in {71, 79, 95}) \/ s.c.i = c.i
     /\ (page = 2 /\ op = 79) \/ RDelta(c.r, s.c.r) = (IF page \in {1, 2} THEN 2 ELSE 1)
     /\ (page = 2 /\ op = 79) \/ s.c.r \div 128 = c.r \div 128
     /\ s.c.px = 0 /\ (s.out = 1 <=> page = 0 /\ op = 118)

(* an interrupt in mode 0 costs the instruction, whose opcode fetch becomes a longer acknowledge *)
IrqOk(c0) ==
  LET c == [c0 EXCEPT !.px = 0, !.iff1 = 1, !.iff2 = 1, !.im = im, !.halt = B2I(c0.f = 255)]
      s == AcceptIrq(Work(c, 0, fl, Env1, << op, 9, 1, 2 >>))
  IN /\ Accs(s) <= 5 /\ s.ts >= 6
     /\ im = 0 /\ op \notin Prefixes => s.ts \in { Plain[op + 1] + 2, Plain[op + 1] + 2 + Taken(op) }
     /\ im = 0 => s.ts <= 25
     /\ im = 1 => s.ts = 13 /\ s.c.pc = 56
     /\ im = 2 => s.ts = 19
     /\ im # 0 => s.c.iff1 = 0 /\ s.c.iff2 = 0 /\ s.c.halt = 0
     /\ im # 0 => s.c.sp = U16(c.sp + 65534)
     /\ im # 0 => RDelta(c.r, s.c.r) = 1
     /\ op = 251 \/ im # 0 \/ s.c.iff1 = 0
NmiOk(c0) ==
  LET c == [c0 EXCEPT !.px = 0, !.halt = B2I(c0.f = 255)]
      s == AcceptNmi(Work(c, 0, fl, Env1, <<>>))
  IN Accs(s) = 2 /\ s.ts = 11 /\ s.c.pc = 102 /\ RDelta(c.r, s.c.r) = 1 /\ s.c.sp = U16(c.sp + 65534)
IdleOk(c0) ==
  LET c == [c0 EXCEPT !.halt = 1]
      s == Next1(Work(c, 0, fl, Env0, <<>>))
  IN Accs(s) = 0 /\ s.ts = 4 /\ s.c.pc = c.pc /\ RDelta(c.r, s.c.r) = 1
PrefixOk(c) ==
  LET s == Next1(Work(c, 0, fl, Env0, << op >>))
  IN s.ts = 4 /\ Accs(s) = 1 /\ s.c.px = op /\ s.c.pc = U16(c.pc + 1) /\ RDelta(c.r, s.c.r) = 1

Init == /\ fl \in {NMOS, CMOS, BM1, OWN} /\ done = FALSE /\ ok = TRUE
        /\ \/ /\ what = "instr" /\ px \in {0, 221, 253} /\ page \in {0, 1, 2, 3} /\ page \in Pages(px)
              /\ op \in 0..255 /\ im = 0
              /\ page = 0 => op \notin Prefixes
           \/ what = "irq" /\ px = 0 /\ page = 0 /\ im \in {0, 1, 2} /\ op \in 0..255
              /\ (im # 0 => op % 16 = 15)
           \/ what \in {"nmi", "idle"} /\ px = 0 /\ page = 0 /\ op = 0 /\ im = 0
           \/ what = "prefix" /\ px \in {0, 221, 253} /\ page = 0 /\ op \in {221, 253} /\ im = 0
Next == /\ ~done /\ done' = TRUE
        /\ ok' = \A c \in States(px) :
                   CASE what = "instr" -> InstrOk(c) [] what = "irq" -> IrqOk(c) [] what = "nmi" -> NmiOk(c)
                     [] what = "idle" -> IdleOk(c) [] what = "prefix" -> PrefixOk(c)
        /\ UNCHANGED <<what, fl, px, page, op, im>>
Spec == Init /\ [][Next]_vars
Bounded == ok
=============================================================================
