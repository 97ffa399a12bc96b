------------------------------ MODULE StepTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded CPU transitions against module Z80.        *)
(*                                                                         *)
(* Each line of the trace is one call of the public interface of the real  *)
(* CPU from a known state, with everything the host answered and saw:      *)
(* <<kind, flavour, ts0, code, env, pre, in, out, accepted, ts1, post,     *)
(*   bus, clk, dbg, mem>>                                                       *)
(* The specification recomputes the transition; the trace conforms when    *)
(* each recorded transition is the one the specification allows (the       *)
(* specification is deterministic once the host's answers are given).      *)
(* The state machine below walks the trace, Batch records per transition,  *)
(* Chunks walkers in parallel.                                             *)
(***************************************************************************)
EXTENDS Z80, TLC, Json, IOUtils

CONSTANTS Fields,    \* which components of the CPU state are compared
          BusKinds,  \* which host accesses are compared, in order
          BusTs,     \* ... with their timestamps
          ClkOn,     \* whether the sequence of clock cycles is compared
          OutOn,     \* whether the outcome is compared
          CountOn,   \* whether the number of accesses and the total time are compared
          DbgOn,     \* whether the bytes shown to the debugger are compared
          Chunks, Batch

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)

EnvOf(rec) == LET v == rec[5] IN
         [ cont |-> v[1], irq |-> v[2], iw |-> v[3], pw |-> v[4], ow |-> v[5], ob |-> v[6], rb |-> v[7],
              line |-> <<>>, ua |-> 0, mem0 |-> rec[6][16], mem |-> rec[15] ]

(* <<accepted, s>> *)
Spec1(rec) ==
  LET s == Work(Cpu(rec[6]), rec[3], rec[2], EnvOf(rec), rec[7])
  IN CASE rec[1] = 0 -> <<1, Next1(s)>>
       [] rec[1] = 1 -> CallIrq(s)
       [] rec[1] = 2 -> CallNmi(s)
       [] rec[1] = 3 -> <<1, Exec(s, rec[4])>>
       [] rec[1] = 4 -> <<1, [s EXCEPT !.c = [ResetCpu EXCEPT !.q = FlavourReset(rec[2])]]>>

KeepBus(b) == LET c == SelectSeq(b, LAMBDA e : e[1] \in BusKinds)
              IN IF BusTs THEN c ELSE [i \in 1..Len(c) |-> << c[i][1], c[i][2], c[i][3], c[i][5] >>]

(* what a debugger sees: the address of the first byte and the bytes; the address only
   where it is defined, for an instruction fetched from memory *)
Fetched(rec) == rec[1] = 0 /\ ~(rec[6][20] = 1 /\ rec[6][24] = 0 /\ rec[6][25] = 0 /\ rec[5][2] = 1)
DbgOk(rec, s) ==
  IF rec[14][1] = -1 THEN TRUE
  ELSE IF s.code = <<>> THEN rec[14] = <<0>>
  ELSE LET px == IF s.code[1] \in {221, 253} THEN 1 ELSE 0
           pc == U16(rec[6][16] + 65536 - px)
       IN /\ rec[14][1] = 1
          /\ SubSeq(rec[14], 3, Len(rec[14])) = s.code
          /\ Fetched(rec) => rec[14][2] = pc

Diff(rec) ==
  LET r == Spec1(rec)
      s == r[2]
      post == Vec(s.c)
      badf == { i \in Fields : post[i] # rec[11][i] }
  IN (IF rec[8] = 9 THEN { <<"panic", 0, 0>> } ELSE {})
     \cup { <<CpuFields[i], post[i], rec[11][i]>> : i \in badf }
     \cup (IF OutOn /\ << s.out, r[1] >> # << rec[8], rec[9] >>
           THEN { <<"outcome", << s.out, r[1] >>, << rec[8], rec[9] >> >> } ELSE {})
     \cup (IF BusKinds # {} /\ KeepBus(s.bus) # KeepBus(rec[12])
           THEN { <<"bus", KeepBus(s.bus), KeepBus(rec[12])>> } ELSE {})
     \cup (IF ClkOn /\ << s.clk, s.ts >> # << rec[13], rec[10] >>
           THEN { <<"clock", << s.clk, s.ts >>, << rec[13], rec[10] >> >> } ELSE {})
     \cup (IF CountOn /\ << Len(s.bus), s.ts >> # << Len(rec[12]), rec[10] >>
           THEN { <<"accesses, time", << Len(s.bus), s.ts >>, << Len(rec[12]), rec[10] >> >> } ELSE {})
     \cup (IF DbgOn /\ ~DbgOk(rec, s) THEN { <<"debug", s.code, rec[14]>> } ELSE {})

---------------------------------------------------------------------------
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Init == /\ chunk \in 1..Chunks
        /\ i = First(chunk)
        /\ bad = {}
Min(a, b) == IF a < b THEN a ELSE b
Next == /\ bad = {}
        /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
