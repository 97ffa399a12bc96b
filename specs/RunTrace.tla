------------------------------- MODULE RunTrace -------------------------------
(***************************************************************************)
(* Trace validation of histories of calls of the runner of ral1243.        *)
(* <<flavour, hz, frame length, waits <<irq, in, out>>, calls>>            *)
(* call: <<op, argument, IRQ line, answers, result, CPU after, events,     *)
(*        <<address, bytes there>> >>  (of the instruction shown)          *)
(* or <<-1, hz, ext, valid>>: a question about a configuration             *)
(***************************************************************************)
EXTENDS RalRun, TLC, Json, IOUtils
CONSTANTS Chunks, Batch
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)

(* this clock's timestamps are those of the end of each cycle *)
Norm(ev) == [k \in 1..Len(ev) |-> IF ev[k][1] \in {5, 6} THEN << ev[k][1], ev[k][2], ev[k][3], ev[k][4] - 3, ev[k][5] >>
                                  ELSE IF ev[k][1] = 7 THEN << ev[k][1], ev[k][2], ev[k][3], ev[k][4] - 4, ev[k][5] >> ELSE ev[k]]
EnvOf(rec, call) == [ cont |-> 0, irq |-> 0, iw |-> rec[4][1], pw |-> rec[4][2], ow |-> rec[4][3], ob |-> 0, rb |-> 0,
                      line |-> call[3], ua |-> 0, mem0 |-> call[8][1], mem |-> call[8][2] ]
Dbg(d, c) == IF d = NoDbg THEN <<>>
             ELSE LET x == d[1] IN
                  IF x.pc = -1 THEN << x.code, x.px >>
                  ELSE << x.code, x.px, x.pc, [k \in 1..5 |-> DbgText(x, k - 1)], DebugLine(x, c), DebugLines(x, c),
                          IF x.mn = "IRQ#" THEN <<>> ELSE << B2N(Calls(x.code, c.f)), B2N(Returns(x.code, c.f)) >> >>
(* what was shown, as far as it is defined *)
SameDbg(want, got) == IF Len(want) = 2 THEN Len(got) >= 2 /\ SubSeq(got, 1, 2) = want
                      ELSE IF want # <<>> /\ want[7] = <<>> THEN Len(got) = 7 /\ SubSeq(got, 1, 6) = SubSeq(want, 1, 6) ELSE got = want
(* << machine, is the result as specified?, result >> *)
Call(f, rec, call) ==
  LET hz == rec[2]  frame == rec[3]  op == call[1]  arg == call[2]  res == call[5]
      dbg(r) == LET d == Dbg(r[2], r[1].s.c)  t == r[1].s.ts - r[3]
                IN << r[1], res[2] = t /\ SameDbg(d, res[1]), << d, t >> >>
  IN CASE op = 0 -> << Start(f, hz), TRUE, <<>> >>
       [] op = 1 -> LET r == Frame(f, hz, frame)  t == r[1].s.ts - r[2] IN << r[1], res = << t >>, t >>
       [] op = 2 -> << Reset(f), TRUE, <<>> >>
       [] op = 3 -> LET r == CallNmi(f.s) IN << [f EXCEPT !.s = r[2]], res = (IF r[1] = 1 THEN << r[2].ts - f.s.ts >> ELSE <<>>), r[1] >>
       [] op = 4 -> dbg(DebugStep(f, hz, frame))
       [] op = 5 -> dbg(RunToInt(f, hz, frame))
       [] op = 6 -> dbg(RunToRet(f, hz, frame))
       [] op = 7 -> LET r == IF f.past THEN RunPast(f, hz, frame, arg) ELSE RunToBrk(f, hz, frame, arg)  t == r[1].s.ts - r[3]
                    IN << r[1], res[2] = t /\ (IF r[2] = {} THEN res[1] = -1 ELSE res[1] + 1 \in r[2]), << r[2], t >> >>
       [] op = 8 -> IF arg[1] \in {221, 253} /\ (f.s.c.px # 0 \/ arg[2] \in {221, 253}) THEN << f, TRUE, <<>> >>   \* open
                    ELSE LET d == Preview(f.s.c, arg) IN << f, res = << [k \in 1..5 |-> DbgText(d, k - 1)], PreviewText(d) >>, << [k \in 1..5 |-> DbgText(d, k - 1)], PreviewText(d) >> >>
       [] op = 9 -> << [f EXCEPT !.s.c = Cpu(arg)], TRUE, <<>> >>
RECURSIVE Walk(_, _, _)
Walk(rec, k, f) ==
  IF k > Len(rec[5]) THEN {}
  ELSE LET call == rec[5][k]
           f0 == [f EXCEPT !.s = [Work(f.s.c, f.s.ts, rec[1], EnvOf(rec, call), call[4]) EXCEPT !.bus = <<>>]]
           \* a recording that was cut off because it did not end
           endless == call[1] = -1 /\ call[5] = << 7 >> /\ f.past
           \* after such a call the clock is far beyond the frame's end, and taking a second off the end's time panics
           sunk == call[1] = -1 /\ call[7] = <<>> /\ f.past /\ f.s.ts > 2 * rec[2] /\ f.limit < rec[2]
           r == IF sunk THEN << f0, TRUE, "panic" >> ELSE IF endless THEN LET p == RunPast([f0 EXCEPT !.dead = TRUE], rec[2], rec[3], call[2]) IN << p[1], p[4], "endless" >>
                ELSE IF call[1] = -1 THEN << f0, FALSE, "panic" >> ELSE Call(f0, rec, call)
           s == r[1].s
       IN IF ~r[2] THEN { << "result of call", k, r[3], call[5] >> }
          ELSE IF endless \/ sunk THEN {}
          ELSE IF Vec(s.c) # call[6] THEN { << "CPU after call", k, { << CpuFields[i], Vec(s.c)[i], call[6][i] >> : i \in { j \in 1..26 : Vec(s.c)[j] # call[6][j] } } >> }
          ELSE IF s.bus # Norm(call[7]) THEN { << "events of call", k, Len(s.bus), Len(call[7]),
                    { << i, s.bus[i], Norm(call[7])[i] >> : i \in { j \in 1..Len(s.bus) : j <= Len(call[7]) /\ s.bus[j] # Norm(call[7])[j] } } >> }
          ELSE Walk(rec, k + 1, r[1])
Diff(rec) == IF rec[1] = -1 THEN (IF (rec[4] = 1) # ClockValid(rec[2], rec[3]) THEN { <<"valid", rec>> } ELSE {})
             ELSE LET from(lone, past) == Walk(rec, 1, [s |-> Work(DefaultCpu, rec[2], rec[1], <<>>, <<>>), limit |-> 0,
                                                              lone |-> lone, past |-> past, dead |-> FALSE])
                  d == from(FALSE, FALSE)
                  \* the recorded defects that explain a history the specification does not allow
                  known == IF from(TRUE, FALSE) = {} THEN { "prefix-address" }
                           ELSE IF from(FALSE, TRUE) = {} THEN { "past-frame" }
                           ELSE IF from(TRUE, TRUE) = {} THEN { "prefix-address", "past-frame" } ELSE {}
              IN IF d = {} THEN {} ELSE IF known = {} THEN d ELSE IF PrintT(<<"KNOWN", known>>) THEN {} ELSE {}

VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Min(a, b) == IF a < b THEN a ELSE b
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ LET hi == Min(i + Batch - 1, Last(chunk))
               b == { k \in i..hi : Diff(Recs[k]) # {} }
           IN /\ i' = hi + 1
              /\ bad' = b
              /\ IF b = {} THEN TRUE
                 ELSE LET k == CHOOSE k \in b : \A j \in b : k <= j
                      IN PrintT(<<"MISMATCH", k, Diff(Recs[k])>>)
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
