------------------------------- MODULE Z80Ctl --------------------------------
(***************************************************************************)
(* Exhaustive model of the interrupt and prefix control of the Z80.        *)
(*                                                                         *)
(* The transition function is that of module Z80; here it is driven by a   *)
(* nondeterministic environment: any instruction of Alphabet, with the IRQ *)
(* line active or not, the host calling irq(), nmi(), halt() or enabling   *)
(* interrupts, in every order.  Registers irrelevant to control are put    *)
(* back to fixed values after each step (Norm), which makes the state      *)
(* space finite; TLC visits all of it, for the three flavours.             *)
(*                                                                         *)
(* Every transition explored is also printed (as JSON): the harness        *)
(* replays each one into the real CPU, along covering walks.               *)
(***************************************************************************)
EXTENDS Z80, TLC, Json
CONSTANTS Dump    \* TRUE: print every transition

VARIABLES fl, c, last
(* last: what the last step was, for the properties *)

Alphabet == {
  <<0>>, <<251>>, <<243>>, <<118>>, <<221>>, <<253>>,      \* NOP EI DI HALT DD FD
  <<36>>, <<55>>, <<60>>, <<201>>,                         \* INC H (prefixable), SCF, INC A, RET
  <<237, 69>>, <<237, 77>>, <<237, 85>>, <<237, 125>>,     \* RETN RETI, undocumented RETNs
  <<237, 87>>, <<237, 95>>,                                \* LD A,I  LD A,R
  <<237, 70>>, <<237, 86>>, <<237, 94>>, <<237, 78>>,      \* IM 0 1 2, IM 0 (undocumented)
  <<237, 0>>, <<203, 7>>, <<24, 0>> }                      \* ED NOP, RLC A, JR
Vectors == { 0, 251, 243, 118, 221, 255, 55, 254 }

PC0 == 4096    \* 0x1000
SP0 == 32768   \* 0x8000
Norm(d) == [ d EXCEPT !.a = 0, !.f = 0, !.h = 64, !.l = 0, !.ix = 20480, !.iy = 24576, !.sp = SP0, !.pc = PC0,
                      !.mp = 0, !.r = 0, !.i = 63 ]
C0 == Norm([ResetCpu EXCEPT !.af2 = 0])
Env(irq) == [ cont |-> 0, irq |-> irq, iw |-> 0, pw |-> 0, ow |-> 0, ob |-> 0, rb |-> 0, line |-> <<>>, ua |-> 0,
              mem0 |-> 0, mem |-> <<>> ]

(* the host's answers: an acknowledge reads the vector (then a jump table entry in mode 2 ) *)
Answers(accept, d, vec, bytes) ==
  IF ~accept THEN bytes ELSE IF d.im = 2 THEN << vec, 8192 >> ELSE << vec >>
Bytes(is) == is \o << 0, 0 >>

Emit(kind, irq, vec, is, d, acc, s) ==
  IF Dump THEN PrintT(ToJson([k |-> kind, fl |-> fl, irq |-> irq, vec |-> vec, is |-> is, pre |-> Vec(d),
                               acc |-> acc, post |-> Vec(s.c), out |-> s.out, ts |-> s.ts, nx |-> Vec(Norm(s.c))]))
  ELSE TRUE

Info(kind, irq, d, acc, s, is) == [ k |-> kind, irq |-> irq, pre |-> d, post |-> s.c, acc |-> acc, out |-> s.out, is |-> is,
                                    f |-> s.c.f ]

(* execute_next with the line active or not *)
StepWith(irq, vec, is) ==
  LET acc == IrqAllowed(c) /\ irq = 1
      s == Next1(Work(c, 0, fl, Env(irq), Answers(acc, c, vec, Bytes(is))))
  IN /\ c' = Norm(s.c)
     /\ last' = Info("step", irq, c, B2I(acc), s, is)
     /\ Emit("step", irq, vec, is, c, B2I(acc), s)
     /\ UNCHANGED fl
Step ==
  \/ c.halt = 1 /\ StepWith(0, 255, <<0>>)
  \/ c.halt = 0 /\ \E is \in Alphabet : StepWith(0, 255, is)
  \/ IrqAllowed(c) /\ \E vec \in Vectors : StepWith(1, vec, <<0>>)
  \/ ~IrqAllowed(c) /\ c.halt = 1 /\ StepWith(1, 255, <<0>>)
  \/ ~IrqAllowed(c) /\ c.halt = 0 /\ \E is \in Alphabet : StepWith(1, 255, is)
CallI ==
  \E vec \in Vectors :
  LET r == CallIrq(Work(c, 0, fl, Env(1), Answers(TRUE, c, vec, <<>>)))
      s == r[2]
  IN /\ c' = Norm(s.c)
     /\ last' = Info("irq", 1, c, r[1], s, <<vec>>)
     /\ Emit("irq", 1, vec, <<0>>, c, r[1], s)
     /\ UNCHANGED fl
CallN ==
  LET r == CallNmi(Work(c, 0, fl, Env(0), <<>>))
      s == r[2]
  IN /\ c' = Norm(s.c)
     /\ last' = Info("nmi", 0, c, r[1], s, <<>>)
     /\ Emit("nmi", 0, 255, <<0>>, c, r[1], s)
     /\ UNCHANGED fl
(* execute_instruction with an opcode supplied by the host *)
ExecCode ==
  \E is \in { i \in Alphabet : Len(i) = 1 } :
  LET s == Exec(Work(c, 0, fl, Env(0), <<0, 0>>), is[1])
  IN /\ c' = Norm(s.c)
     /\ last' = Info("code", 0, c, 1, s, is)
     /\ Emit("code", 0, 255, is, c, 1, s)
     /\ UNCHANGED fl
(* direct manipulation by the host *)
Api(kind, d) ==
  LET s == [Work(d, 0, fl, Env(0), <<>>) EXCEPT !.c = d]
  IN /\ c' = Norm(d)
     /\ last' = Info(kind, 0, c, 1, s, <<>>)
     /\ Emit(kind, 0, 255, <<>>, c, 1, s)
     /\ UNCHANGED fl
ApiHalt == Api("halt", [c EXCEPT !.halt = 1])
ApiEnable == Api("ei", [c EXCEPT !.iff1 = 1, !.iff2 = 1, !.ei = 1])
ApiDisable == Api("di", [c EXCEPT !.iff1 = 0, !.iff2 = 0])
ApiRestore == Api("retn", [c EXCEPT !.iff1 = c.iff2])

Init == fl \in {NMOS, CMOS, BM1} /\ c = C0 /\ last = [k |-> "init"]
Next == Step \/ CallI \/ CallN \/ ExecCode \/ ApiHalt \/ ApiEnable \/ ApiDisable \/ ApiRestore
Spec == Init /\ [][Next]_<<fl, c, last>>
View == << fl, c >>

---------------------------------------------------------------------------
(* Properties of the design, as checked on every explored transition.      *)
Ev == last.k # "init"
P == last.pre
Q == last.post
IsStep == Ev /\ last.k = "step"
Accepts == Ev /\ last.k \in {"step", "irq"} /\ last.acc = 1
Executed == Ev /\ (last.k = "code" \/ (IsStep /\ last.acc = 0 /\ P.halt = 0))

TypeOK == /\ c.px \in {0, 221, 253} /\ c.im \in 0..2
          /\ \A x \in {c.ei, c.halt, c.iff1, c.iff2, c.q} : x \in {0, 1}
(* C12: an accepted IRQ needs IFF1, no EI shadow, no pending prefix; it disables further ones *)
IrqGuard == Accepts => P.iff1 = 1 /\ P.ei = 0 /\ P.px = 0
IrqDisables == Accepts /\ ~(P.im = 0 /\ Q.ei = 1) => Q.iff1 = 0 /\ Q.iff2 = 0
IrqTaken == IsStep /\ last.irq = 1 /\ P.iff1 = 1 /\ P.ei = 0 /\ P.px = 0 => last.acc = 1
(* C13: NMI needs no EI shadow, no prefix; clears IFF1 only *)
NmiRule == Ev /\ last.k = "nmi" =>
             /\ last.acc = B2I(P.ei = 0 /\ P.px = 0)
             /\ last.acc = 1 => Q.iff1 = 0 /\ Q.iff2 = P.iff2 /\ Q.pc = 102 /\ Q.halt = 0
             /\ last.acc = 0 => Q = P
(* C14: the shadow lasts exactly one instruction *)
ShadowSet == Executed /\ last.is = <<251>> => Q.ei = 1 /\ Q.iff1 = 1 /\ Q.iff2 = 1
ShadowEnds == Executed /\ last.is # <<251>> => Q.ei = 0
PrefixEnds == Executed => (Q.px # 0 <=> last.is \in {<<221>>, <<253>>})
(* C15: HALT is left only by an accepted interrupt, or an instruction forced by the host *)
HaltStays == Ev /\ P.halt = 1 /\ Q.halt = 0 => Accepts \/ last.k \in {"nmi", "code"}
HaltIdle == IsStep /\ P.halt = 1 /\ last.acc = 0 =>
              Q = [P EXCEPT !.r = IncR(P.r), !.ei = 0, !.px = 0] /\ last.out = 0
HaltWakes == Accepts /\ P.halt = 1 /\ P.im = 2 => Q.pc = 8192
(* after one idle cycle a halted CPU is open to interrupts whatever happened before *)
HaltOpens == IsStep /\ P.halt = 1 /\ last.acc = 0 => NoShadow(Q)
(* C26: IFF bookkeeping *)
RetnRule == Executed /\ Len(last.is) = 2 /\ last.is[1] = 237 /\ last.is[2] \in {69, 77, 85, 125} =>
              Q.iff1 = P.iff2 /\ Q.iff2 = P.iff2
IffFrame == Executed /\ last.is \notin {<<251>>, <<243>>} /\ ~(Len(last.is) = 2 /\ last.is[2] \in {69, 77, 85, 125}) =>
              Q.iff1 = P.iff1 /\ Q.iff2 = P.iff2
LdAIRule == Executed /\ last.is \in {<<237, 87>>, <<237, 95>>} =>
              PF(last.f) = (IF fl = NMOS /\ P.iff1 = 1 /\ last.irq = 1 THEN 0 ELSE P.iff2)

(* checked on every transition, also those leading to states already seen *)
AlwaysIrqGuard == [][IrqGuard']_<<fl, c, last>>
AlwaysIrqDisables == [][IrqDisables']_<<fl, c, last>>
AlwaysIrqTaken == [][IrqTaken']_<<fl, c, last>>
AlwaysNmiRule == [][NmiRule']_<<fl, c, last>>
AlwaysShadowSet == [][ShadowSet']_<<fl, c, last>>
AlwaysShadowEnds == [][ShadowEnds']_<<fl, c, last>>
AlwaysPrefixEnds == [][PrefixEnds']_<<fl, c, last>>
AlwaysHaltStays == [][HaltStays']_<<fl, c, last>>
AlwaysHaltIdle == [][HaltIdle']_<<fl, c, last>>
AlwaysHaltWakes == [][HaltWakes']_<<fl, c, last>>
AlwaysHaltOpens == [][HaltOpens']_<<fl, c, last>>
AlwaysRetnRule == [][RetnRule']_<<fl, c, last>>
AlwaysIffFrame == [][IffFrame']_<<fl, c, last>>
AlwaysLdAIRule == [][LdAIRule']_<<fl, c, last>>
=============================================================================
