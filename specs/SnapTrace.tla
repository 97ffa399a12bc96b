------------------------------- MODULE SnapTrace ------------------------------
(* Validation of recorded saves and restores.
   <<0, flavour, CPU, document>>                                a save
   <<1, target, document, << <<accepted, flavour, CPU, same>>, ... >> >>
     what restoring the document gave, once per format; same: behaves the same and saves the same again
   <<2, ...>>  the same, for formats that know the length of a document without names in advance
   A document of null stands for a binary save that is cut short. *)
EXTENDS Snapshot, TLC, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Diff(rec) ==
  IF rec[1] = 0
  THEN IF IsSave(rec[2], Cpu(rec[3]), rec[4]) THEN {} ELSE { <<"not a save", Restore(3, rec[4]), Cpu(rec[3])>> }
  ELSE LET want == Restore(rec[2], rec[3])
           \* whether a typed CPU reads a save of an unknown type is left open
           doc == Document(rec[3])
           open == rec[2] # 3 /\ doc[1] = "o" /\ \E k \in 1..Len(doc[2]) : doc[2][k][1] = "type" /\ TypeOf(doc[2][k][2]) = -1
           \* a text does not tell that the type is missing from a document without names
           short == rec[1] = 1 /\ rec[3][1] = "a" /\ Len(rec[3][2]) = 17
           ok(g) == IF (open \/ short) /\ g[1] = 0 THEN TRUE ELSE IF want[1] = 0 THEN g[1] = 0
                    ELSE g[1] = 1 /\ g[2] = want[2] /\ g[3] = Vec(want[3]) /\ g[4] = 1
       IN { <<"restored", k, want[1], want[2], Vec(want[3]), rec[4][k]>> : k \in { k \in 1..Len(rec[4]) : ~ok(rec[4][k]) } }
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
