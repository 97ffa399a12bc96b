------------------------------- MODULE DisTrace -------------------------------
(* Validation of recorded disassembly.
   <<0, pc0, bytes, lines, text, once, stopped_at, seen>>   a piece of memory through the disassembler
   <<1, pending prefix, pc, bytes, lines>>                  one executed instruction with a debugger *)
EXTENDS Z80Dis, TLC, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
RECURSIVE Lines(_)
Lines(l) == IF l = <<>> THEN "" ELSE l[1][4][2] \o "\n" \o Lines(Tail(l))
Diff(rec) ==
  IF rec[1] = 0
  THEN LET l == Listing(rec[3], rec[2], 0, 0) IN
       (IF l # rec[4] THEN { <<"listing", l, rec[4]>> } ELSE {})
       \cup (IF Lines(l) # rec[5] THEN { <<"text", Lines(l), rec[5]>> } ELSE {})
       \cup (IF (IF l = <<>> THEN <<>> ELSE << l[1] >>) # rec[6] THEN { <<"first instruction", l, rec[6]>> } ELSE {})
       \cup (IF (IF Len(l) >= rec[7] THEN << rec[7], 1 >> ELSE << Len(l), 0 >>) # rec[8] THEN { <<"stopping", Len(l), rec[8]>> } ELSE {})
  ELSE LET l == << Report(rec[4], rec[2], rec[3]) >> IN
       IF l # rec[5] THEN { <<"debugger", l, rec[5]>> } ELSE {}
VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
