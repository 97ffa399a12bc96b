------------------------------ MODULE LimitTrace -----------------------------
(***************************************************************************)
(* Trace validation of runs of execute_with_limit: the whole run must be   *)
(* the iteration of single steps of module Z80, stopped at the first step  *)
(* boundary where the clock has reached the limit, or at a break.          *)
(* Record: <<resumed, flavour, ts0, limit, env, line, ua, pre, in, out,    *)
(*           ts1, post, bus, clk, breaks>>                                 *)
(* resumed = 1: the caller called again after each break until the limit.  *)
(***************************************************************************)
EXTENDS Z80, TLC, Json, IOUtils
CONSTANTS Fields, BusOn, ClkOn, OutOn, Chunks, Batch

Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
EnvOf(rec) == LET v == rec[5] IN
  [ cont |-> v[1], irq |-> v[2], iw |-> v[3], pw |-> v[4], ow |-> v[5], ob |-> v[6], rb |-> v[7],
    line |-> rec[6], ua |-> rec[7], mem0 |-> 0, mem |-> <<>> ]
Spec1(rec) ==
  LET s == Work(Cpu(rec[8]), rec[3], rec[2], EnvOf(rec), rec[9])
  IN IF rec[1] = 1 THEN [RunOn(s, rec[4]) EXCEPT !.out = 0] ELSE Run(s, rec[4])
Diff(rec) ==
  LET s == Spec1(rec)
      post == Vec(s.c)
      badf == { i \in Fields : post[i] # rec[12][i] }
  IN IF rec[10] = 9 THEN { <<"panic", 0, 0>> }
     ELSE { <<CpuFields[i], post[i], rec[12][i]>> : i \in badf }
     \cup (IF OutOn /\ << s.out, s.ts >> # << rec[10], rec[11] >>
           THEN { <<"outcome,ts", << s.out, s.ts >>, << rec[10], rec[11] >> >> } ELSE {})
     \cup (IF BusOn /\ s.bus # rec[13] THEN { <<"bus", Len(s.bus), Len(rec[13])>> } ELSE {})
     \cup (IF ClkOn /\ s.clk # rec[14] THEN { <<"clock", Len(s.clk), Len(rec[14])>> } ELSE {})

VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
