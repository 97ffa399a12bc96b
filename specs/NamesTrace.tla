------------------------------- MODULE NamesTrace -------------------------------
(* Comparison of the complete recorded tables with the specification. *)
EXTENDS Z80Names, TLC, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Diff(rec) == IF TableOk(rec) THEN {} ELSE { rec }
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
