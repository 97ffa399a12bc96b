------------------------------- MODULE ApiTrace -------------------------------
(* Validation of recorded histories of interface calls: the specification follows the
   calls from the first state on its own and must show the same after each of them.
   Record: <<flavour, first state, << <<call, result, flavour, state, shown>>, ... >> >> *)
EXTENDS Z80Api, TLC, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
RECURSIVE Follow(_, _, _, _)
Follow(fl, c, calls, k) ==
  IF k > Len(calls) THEN {}
  ELSE LET e == calls[k]
           a == Apply(fl, c, e[1])
           post == Vec(a[2])
           d == (IF e[3] = a[1] /\ (e[2] = a[3] \/ (a[3] = AnyResult /\ e[2] \in {0, 1})) THEN {} ELSE { <<"flavour, result", a[1], a[3], e[3], e[2]>> })
                \cup { <<CpuFields[i], post[i], e[4][i]>> : i \in { i \in 1..26 : post[i] # e[4][i] } }
                \cup (IF e[5] = Observe(a[2]) THEN {} ELSE { <<"shown", Observe(a[2]), e[5]>> })
       IN IF d = {} THEN Follow(a[1], a[2], calls, k + 1) ELSE { <<k, e[1], d>> }
Diff(rec) == Follow(rec[1], Cpu(rec[2]), rec[3], 1)
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
