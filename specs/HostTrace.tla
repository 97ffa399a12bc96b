------------------------------- MODULE HostTrace -------------------------------
(* Validation of recorded clock histories and default host calls.
   <<"clk", limbs, signed, first value, << <<call, amount, argument, returned, value after>>, ... >> >>
   <<"def", which host, method, address, data, memory, result>>
   <<"cyc", constants>> *)
EXTENDS Z80Host, TLC, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
RECURSIVE Follow(_, _, _, _)
Follow(v, signed, calls, k) ==
  IF k > Len(calls) THEN {}
  ELSE LET e == calls[k]   a == Tick(v, signed, e[1], e[2], e[3])
       IN IF a = << e[4], e[5] >> THEN Follow(a[2], signed, calls, k + 1) ELSE { << k, e, a >> }
Diff(rec) ==
  CASE rec[1] = "clk" -> Follow(rec[4], rec[3], rec[5], 1)
    [] rec[1] = "def" -> IF Default(rec[2], rec[3], rec[6]) = rec[7] THEN {} ELSE { << rec, Default(rec[2], rec[3], rec[6]) >> }
    [] rec[1] = "cyc" -> IF rec[2] = Cycles THEN {} ELSE { << rec, Cycles >> }
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
