-------------------------------- MODULE Z80Api --------------------------------
(***************************************************************************)
(* The register-level interface of a CPU: every accessor, control method,  *)
(* conversion and constructor as a transition of <<flavour, CPU>>, and     *)
(* everything the accessors show as functions of the state.                *)
(* Pairs are numbered 0 BC, 1 DE, 2 HL, 3 AF; registers B C D E H L A A.   *)
(***************************************************************************)
EXTENDS Z80
Pair(c, p) == CASE p = 0 -> BC(c) [] p = 1 -> DE(c) [] p = 2 -> HL(c) [] p = 3 -> W(c.a, c.f)
Alt(c, p) == CASE p = 0 -> c.bc2 [] p = 1 -> c.de2 [] p = 2 -> c.hl2 [] p = 3 -> c.af2
SetPair(c, p, w) ==
  CASE p = 0 -> [c EXCEPT !.b = Hi(w), !.c = Lo(w)]
    [] p = 1 -> [c EXCEPT !.d = Hi(w), !.e = Lo(w)]
    [] p = 2 -> [c EXCEPT !.h = Hi(w), !.l = Lo(w)]
    [] p = 3 -> [c EXCEPT !.a = Hi(w), !.f = Lo(w)]
(* only H and L have an index form *)
Reg(c, n, px) ==
  CASE n = 0 -> c.b [] n = 1 -> c.c [] n = 2 -> c.d [] n = 3 -> c.e
    [] n = 4 -> IF px = 221 THEN Hi(c.ix) ELSE IF px = 253 THEN Hi(c.iy) ELSE c.h
    [] n = 5 -> IF px = 221 THEN Lo(c.ix) ELSE IF px = 253 THEN Lo(c.iy) ELSE c.l
    [] n >= 6 -> c.a
SetReg(c, n, px, x) ==
  CASE n = 0 -> [c EXCEPT !.b = x] [] n = 1 -> [c EXCEPT !.c = x]
    [] n = 2 -> [c EXCEPT !.d = x] [] n = 3 -> [c EXCEPT !.e = x]
    [] n = 4 -> (IF px = 221 THEN [c EXCEPT !.ix = W(x, Lo(@))]
                 ELSE IF px = 253 THEN [c EXCEPT !.iy = W(x, Lo(@))] ELSE [c EXCEPT !.h = x])
    [] n = 5 -> (IF px = 221 THEN [c EXCEPT !.ix = W(Hi(@), x)]
                 ELSE IF px = 253 THEN [c EXCEPT !.iy = W(Hi(@), x)] ELSE [c EXCEPT !.l = x])
    [] n >= 6 -> [c EXCEPT !.a = x]
(* the low seven bits count, bit 7 stays; delta is any 32-bit number *)
AddR(r, delta) == (r \div 128) * 128 + ((r + (delta % 128)) % 128)
(* Q is kept between the flavours that have one *)
Convert(fl, c, to) == << to, [c EXCEPT !.q = IF fl = CMOS \/ to = CMOS THEN 0 ELSE @] >>

Tags == << NMOS, NMOS, NMOS, NMOS, CMOS, CMOS, CMOS, BM1, BM1, BM1, -1, -1, -1, -1 >>

AnyResult == -7
(* <<flavour, CPU, result>> *)
Apply(fl, c, op) ==
  LET k == op[1]
      to(d) == << fl, d, 0 >>
  IN CASE k = 0  -> << fl, ResetCpu, 1 >>                     \* equal to a new one
       [] k = 1  -> to([c EXCEPT !.pc = op[2]])
       [] k = 2  -> to([c EXCEPT !.sp = op[2]])
       [] k = 3  -> to([c EXCEPT !.a = op[2]])
       [] k = 4  -> to([c EXCEPT !.f = op[2]])
       [] k = 5  -> to([c EXCEPT !.r = IncR(@)])
       [] k = 6  -> to([c EXCEPT !.r = AddR(@, op[2])])
       [] k = 7  -> to([c EXCEPT !.r = op[2]])
       [] k = 8  -> to([c EXCEPT !.i = op[2]])
       [] k = 9  -> to([c EXCEPT !.iff1 = op[2], !.iff2 = op[3]])
       [] k = 10 -> to([c EXCEPT !.halt = 1])
       [] k = 11 -> to([c EXCEPT !.im = op[2]])
       [] k = 12 -> to([c EXCEPT !.a = Hi(c.af2), !.f = Lo(c.af2), !.af2 = W(c.a, c.f)])
       [] k = 13 -> to([c EXCEPT !.b = Hi(c.bc2), !.c = Lo(c.bc2), !.d = Hi(c.de2), !.e = Lo(c.de2),
                          !.h = Hi(c.hl2), !.l = Lo(c.hl2), !.bc2 = BC(c), !.de2 = DE(c), !.hl2 = HL(c)])
       [] k = 14 -> to(SetReg(c, op[2], op[3], op[4]))
       [] k = 15 -> to(SetPair(c, op[2], W(op[3], op[4])))
       [] k = 16 -> to(SetPair(c, op[2], op[3]))
       [] k = 17 -> to(IF op[2] = 221 THEN [c EXCEPT !.ix = W(op[3], op[4])] ELSE [c EXCEPT !.iy = W(op[3], op[4])])
       [] k = 18 -> to(IF op[2] = 221 THEN [c EXCEPT !.ix = op[3]] ELSE [c EXCEPT !.iy = op[3]])
       [] k = 19 -> to([c EXCEPT !.iff1 = c.iff2])
       [] k = 20 -> to([c EXCEPT !.iff1 = 0, !.iff2 = 0])
       [] k = 21 -> to([c EXCEPT !.iff1 = 1, !.iff2 = 1, !.ei = 1])
       [] k = 22 -> to([c EXCEPT !.mp = op[2]])
       [] k \in {23, 25, 29} -> to(c)                       \* normalize R, clone, look
       \* result: whether the conversion back gives an equal CPU, which is left open only
       \* where the target has no room for the flavour's memory of flag changes
       [] k = 24 -> Convert(fl, c, op[2]) \o << IF fl # CMOS /\ op[2] = CMOS THEN AnyResult ELSE 1 >>
       [] k = 26 -> LET s == Exec(Work(c, 0, fl, [cont |-> 0, irq |-> 0, iw |-> 0, pw |-> 0, ow |-> 0, ob |-> 0,
                                                  rb |-> 0, line |-> <<>>, ua |-> 0,
                                                  mem0 |-> 0, mem |-> <<>>], << op[3] >>), op[2])
                    IN << fl, s.c, s.out >>
       [] k = 27 -> << IF op[3] = 1 /\ op[4] = 1 THEN NMOS ELSE op[2],  \* the default run-time CPU is NMOS
                       IF op[4] = 0 THEN ResetCpu ELSE DefaultCpu, 0 >>
       [] k = 28 -> IF Tags[op[2] + 1] = -1 THEN << fl, c, -1 >> ELSE << Tags[op[2] + 1], ResetCpu, 0 >>
       [] k = 30 -> << fl, c, 1 >>                          \* after one more instruction: equal to any normalized CPU in the same state

(* what the accessors show besides the state vector *)
Observe(c) ==
  << IR(c), IF IrqAllowed(c) THEN 1 ELSE 0, IF NmiAllowed(c) THEN 1 ELSE 0, IF c.px # 0 THEN 1 ELSE 0,
     Pair(c, 0), Pair(c, 0), Alt(c, 0), Pair(c, 1), Pair(c, 1), Alt(c, 1),
     Pair(c, 2), Pair(c, 2), Alt(c, 2), Pair(c, 3), Pair(c, 3), Alt(c, 3),
     c.ix, Hi(c.ix), Lo(c.ix), c.b, c.a, c.iy, Hi(c.iy), Lo(c.iy), c.b, c.a, c.a >>
=============================================================================
