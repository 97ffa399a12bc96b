------------------------------- MODULE RalTrace -------------------------------
(* Validation of recorded histories of host calls on the example computer's bus.
   Record: << << RAM kilobytes, ROM, ports, device kind, clock period (0: listed edges), edges >>,
              << <<call, x, y, timestamp, result, calls the peripherals saw>>, ... >> >> *)
EXTENDS Ral, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
(* the machines that explain the history so far; -999: the call panicked, which it may only where the *)
(* recorded defects bring more pulses than a chain holds *)
RECURSIVE Follow(_, _, _)
Follow(S, calls, k) ==
  IF k > Len(calls) THEN {}
  ELSE LET e == calls[k]
           A == UNION { Call([s EXCEPT !.log = <<>>, !.rec = e[6]], e) : s \in S }
           G == { a[1] : a \in { a \in A : IF e[1] # "dbg" /\ e[5] = -999 THEN a[1].lazy /\ a[1].full ELSE a[2] = e[5] /\ a[1].log = e[6] } }
       IN IF G # {} THEN Follow(G, calls, k + 1)
          ELSE { << k, e, { << a[2], a[1].log >> : a \in A } >> }
Explained(rec, lazy, stale, slow) == Follow({ Machine(rec[1], lazy, stale, slow) }, rec[2], 1) = {}
(* the recorded defects that explain a history the specification does not allow *)
Known(rec) == IF Explained(rec, TRUE, TRUE, FALSE) THEN { "ctc-late" }
              ELSE IF Explained(rec, TRUE, FALSE, TRUE) THEN { "ctc-purge" }
              ELSE IF Explained(rec, TRUE, TRUE, TRUE) THEN { "ctc-late", "ctc-purge" } ELSE {}
Diff(rec) == LET d == Follow({ Machine(rec[1], FALSE, FALSE, FALSE) }, rec[2], 1)
             IN IF d = {} THEN {}
                ELSE LET k == Known(rec) IN IF k = {} THEN d ELSE IF PrintT(<<"KNOWN", k>>) THEN {} ELSE {}
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min2(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
