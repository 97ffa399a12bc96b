-------------------------------- MODULE RalRun --------------------------------
(***************************************************************************)
(* The runner of the example computer ral1243: emulated time in frames and *)
(* seconds, and the debugger built on single steps.                        *)
(*                                                                         *)
(* A machine is [s |-> working record of module Z80 (CPU, clock, host),    *)
(* limit |-> the clock value at which the current frame ends].             *)
(* The clock starts at one second; whenever a call finds it beyond two     *)
(* seconds, one second is taken off the clock, the limit and every device. *)
(* "lone" and "past" describe what the code does instead, with its two      *)
(* recorded defects (known-findings.txt): the specification proper has both *)
(* FALSE.                                                                   *)
(* Events besides the accesses of the CPU: 10 frame end, 11 second passed, *)
(* 12 reset of the devices.                                                *)
(***************************************************************************)
EXTENDS Z80Dis

Note(s, kind, val, ts) == [s EXCEPT !.bus = Append(@, << kind, val, 0, ts, 0 >>)]
Second(f, hz) ==
  IF f.s.ts > 2 * hz
  THEN [f EXCEPT !.s = Note([f.s EXCEPT !.ts = @ - hz], 11, hz, 0), !.limit = @ - hz] ELSE f
FrameEnd(f, limit) == [f EXCEPT !.s = Note(f.s, 10, 0, f.s.ts), !.limit = limit]
Step1(s) == Next1([s EXCEPT !.out = 0, !.code = <<>>])

Start(f, hz) == [f EXCEPT !.s = Note([f.s EXCEPT !.ts = hz, !.c = [ResetCpu EXCEPT !.q = FlavourReset(f.s.fl)]], 12, 0, hz), !.limit = hz]
Reset(f) == [f EXCEPT !.s = Note([f.s EXCEPT !.c = [ResetCpu EXCEPT !.q = FlavourReset(f.s.fl)]], 12, 0, f.s.ts)]
(* a frame *)
Frame(f0, hz, frame) ==
  LET f == Second(f0, hz)
      limit == f.limit + frame
  IN << FrameEnd([f EXCEPT !.s = RunOn(f.s, limit)], limit), f.s.ts >>

---------------------------------------------------------------------------
(* What the debugger shows: [pc, mn, args, code, px]; pc = -1 where it has no address *)
NoDbg == << >>
Shown(s0, s1) ==    \* of the step from s0 to s1, which executed an instruction
  LET px == IF s1.code[1] \in {221, 253} THEN s1.code[1] ELSE 0
      B == IF px = 0 THEN s1.code ELSE Tail(s1.code)
      pc == s0.c.pc
      ins == Dis1(B, px, pc)
      irq == s1.na # s0.na
  IN << [pc |-> IF irq THEN -1 ELSE U16(pc + 65536 - (IF px = 0 THEN 0 ELSE 1)),
         mn |-> ins.mn, args |-> ins.args, code |-> s1.code, px |-> px] >>
(* an interrupt in mode 2 is shown as such, with the address it occurred at and that of its vector *)
IrqShown(dbg, s0, s1) ==
  IF s1.c.im = 2 /\ dbg # NoDbg /\ s1.na # s0.na
  THEN << [pc |-> s0.c.pc, mn |-> "IRQ#", args |-> << << "nn", W(s1.c.i, s1.bus[CHOOSE k \in 1..Len(s1.bus) : s1.bus[k][1] = 7 /\ \A j \in k + 1..Len(s1.bus) : s1.bus[j][1] # 7][3]) >> >>,
           code |-> << s1.c.pc % 256, s1.c.pc \div 256 >>, px |-> 0] >>
  ELSE dbg
Alone(px, pc) == << [pc |-> pc, mn |-> "NOP*", args |-> << Tx(IName(px)) >>, code |-> << px >>, px |-> px] >>
DbgText(d, st) == LineText([mn |-> d.mn, args |-> d.args, len |-> 0, px |-> d.px], d.code, d.pc, st)

(* one instruction, with its prefix; each frame boundary passed is announced *)
Passed(f, frame) == IF f.s.ts >= f.limit + frame THEN FrameEnd(f, f.limit + frame) ELSE f
DebugStep(f0, hz, frame) ==   \* << machine, shown, start >>
  LET f == Second(f0, hz)
      px == f.s.c.px
      pc == U16(f.s.c.pc + 65536 - (IF px = 0 THEN 0 ELSE 1))
      a == Step1(f.s)
      fa == Passed([f EXCEPT !.s = a], frame)
      irq == a.na # f.s.na
      pc1 == IF f.lone THEN f.s.c.pc ELSE pc
  IN IF a.code # <<>> THEN << fa, IrqShown(Shown(f.s, a), f.s, a), f.s.ts >>
     ELSE IF a.c.halt = 1 THEN << fa, NoDbg, f.s.ts >>
     ELSE IF px # 0 THEN << fa, Alone(px, pc1), f.s.ts >>
     ELSE LET b == Step1(fa.s)
              fb == Passed([fa EXCEPT !.s = b], frame)
          IN << fb, IF b.code # <<>> THEN Shown(fa.s, b) ELSE Alone(a.c.px, IF irq THEN -1 ELSE pc1), f.s.ts >>

(* until an interrupt is accepted or the frame ends *)
RECURSIVE ToInt(_, _, _)
ToInt(f, limit, dbg) ==
  LET a == Step1(f.s)
      d == IF a.code # <<>> THEN IrqShown(Shown(f.s, a), f.s, a) ELSE dbg
      past == a.ts >= limit
      fa == IF past THEN FrameEnd([f EXCEPT !.s = a], limit) ELSE [f EXCEPT !.s = a]
  IN IF a.na # f.s.na THEN << fa, d >>
     ELSE IF past THEN << fa, NoDbg >>
     ELSE ToInt(fa, limit, d)
RunToInt(f0, hz, frame) ==
  LET f == Second(f0, hz)  r == ToInt(f, f.limit + frame, NoDbg) IN << r[1], r[2], f.s.ts >>

(* until a RET, RET cc, RETI or RETN returns or the frame ends *)
Returns(code, flags) ==
  \/ code = << 201 >>
  \/ Len(code) = 2 /\ code[1] = 237 /\ code[2] \div 64 = 1 /\ code[2] % 8 = 5
  \/ Len(code) = 1 /\ code[1] >= 192 /\ code[1] % 8 = 0 /\ Cond(flags, (code[1] \div 8) % 8)
Calls(code, flags) ==
  \/ code[1] = 205
  \/ code[1] >= 192 /\ code[1] % 8 = 7
  \/ code[1] >= 192 /\ code[1] % 8 = 4 /\ Cond(flags, (code[1] \div 8) % 8)
RECURSIVE ToRet(_, _)
ToRet(f, limit) ==
  LET a == Step1(f.s)
      past == a.ts >= limit
      fa == IF past THEN FrameEnd([f EXCEPT !.s = a], limit) ELSE [f EXCEPT !.s = a]
  IN IF a.code # <<>> /\ Returns(a.code, a.c.f) THEN << fa, Shown(f.s, a) >>
     ELSE IF past THEN << fa, NoDbg >>
     ELSE ToRet(fa, limit)
RunToRet(f0, hz, frame) ==
  LET f == Second(f0, hz)  r == ToRet(f, f.limit + frame) IN << r[1], r[2], f.s.ts >>

(* until PC is one of the sorted breakpoints (which may be at once) or the frame ends *)
Hits(bk, pc) == { k \in 1..Len(bk) : bk[k] = pc }
RECURSIVE ToBrk(_, _, _)
ToBrk(f, limit, bk) ==
  LET a == Step1(f.s)
      past == a.ts >= limit
      fa == IF past THEN FrameEnd([f EXCEPT !.s = a], limit) ELSE [f EXCEPT !.s = a]
  IN IF past \/ Hits(bk, a.c.pc) # {} THEN fa ELSE ToBrk(fa, limit, bk)
(* the recorded defect: the frame does not end while PC is the next breakpoint, or FFFF after the last *)
Above(bk, pc) == LET k == { k \in 1..Len(bk) : bk[k] > pc } IN IF k = {} THEN 65535 ELSE bk[CHOOSE x \in k : \A y \in k : x <= y]
RECURSIVE PastBrk(_, _, _, _)
PastBrk(f, limit, bk, next) ==   \* << machine, a breakpoint was hit, did it run on after the end of the frame? >>
  LET a == Step1(f.s)
      past == a.ts >= limit
      fa == IF past THEN FrameEnd([f EXCEPT !.s = a], limit) ELSE [f EXCEPT !.s = a]
  IN IF past /\ a.c.pc # next THEN << fa, FALSE, FALSE >>
     ELSE IF Hits(bk, a.c.pc) # {} THEN << fa, TRUE, FALSE >>
     ELSE IF past /\ f.dead THEN << fa, FALSE, TRUE >>
     ELSE PastBrk(fa, limit, bk, IF past \/ a.c.pc >= next \/ a.c.pc < f.s.c.pc THEN Above(bk, a.c.pc) ELSE next)
RunPast(f0, hz, frame, bk) ==
  LET f == Second(f0, hz)
      r == IF Hits(bk, f.s.c.pc) # {} THEN << f, TRUE, FALSE >> ELSE PastBrk(f, f.limit + frame, bk, Above(bk, f.s.c.pc))
  IN << r[1], IF r[2] THEN Hits(bk, r[1].s.c.pc) ELSE {}, f.s.ts, r[3] >>
RunToBrk(f0, hz, frame, bk) ==   \* << machine, indices that may be reported, start >>
  LET f == Second(f0, hz)
      r == IF Hits(bk, f.s.c.pc) # {} THEN f ELSE ToBrk(f, f.limit + frame, bk)
  IN << r, Hits(bk, r.s.c.pc), f.s.ts >>

(* what will be executed next, from the bytes of memory at PC *)
Preview(c, mem) ==
  LET two == mem[1] \in {221, 253}
      px == IF c.px # 0 THEN c.px ELSE IF two THEN mem[1] ELSE 0
      skip == c.px = 0 /\ two
      B == IF skip THEN Tail(mem) ELSE mem
      pc == IF skip THEN U16(c.pc + 1) ELSE c.pc
      ins == Dis1(B, px, pc)
      raw == SubSeq(B, 1, ins.len)
  IN [pc |-> IF ins.px = 0 THEN pc ELSE U16(pc + 65535), mn |-> ins.mn, args |-> ins.args,
      code |-> IF ins.px = 0 THEN raw ELSE << ins.px >> \o raw, px |-> ins.px]

---------------------------------------------------------------------------
(* Texts *)
Hex4(n) == HexD(n, 4, TRUE)
Hex2(n) == HexD(n, 2, TRUE)
RECURSIVE Bin(_, _)
Bin(n, digits) == IF digits = 0 THEN "" ELSE Bin(n \div 2, digits - 1) \o DigitOf(n % 2)
RECURSIVE Cat(_)
Cat(l) == IF l = <<>> THEN "" ELSE l[1] \o Cat(Tail(l))
RECURSIVE Words(_)
Words(l) == IF Len(l) = 1 THEN Hex4(l[1]) ELSE Hex4(l[1]) \o " " \o Words(Tail(l))
Instr(d, sep) == Hex4(d.pc) \o sep \o PadR(d.mn, 4) \o " " \o PadR(Join(d.args, 2), 14) \o " "
Codes(code, gap) == Cat([k \in 1..4 |-> IF k <= Len(code) THEN Hex2(code[k]) \o gap ELSE "  " \o gap])
AFof(c) == W(c.a, c.f)
PreviewText(d) == Instr(d, ">") \o Codes(d.code, " ")
DebugLine(d, c) ==
  Instr(d, " ") \o Codes(d.code, "") \o " " \o Bin(c.f, 8) \o " "
  \o Words(<< AFof(c), BC(c), DE(c), HL(c), c.af2, c.bc2, c.de2, c.hl2, c.ix, c.iy, c.sp, c.pc, IR(c) >>)
  \o " " \o DigitOf(c.iff1) \o DigitOf(c.iff2) \o DigitOf(c.im) \o " " \o Hex4(c.mp)
DebugLines(d, c) ==
  Instr(d, " ") \o Bin(c.f, 8) \o " " \o Words(<< AFof(c), BC(c), DE(c), HL(c), c.ix, c.sp, IR(c) >>) \o "\n"
  \o Hex4(d.pc) \o " " \o Codes(d.code, " ")
  \o "        IF" \o DigitOf(c.iff1) \o DigitOf(c.iff2) \o " IM" \o DigitOf(c.im) \o " "
  \o Words(<< c.af2, c.bc2, c.de2, c.hl2, c.iy, c.pc, c.mp >>)

(* configurations *)
B2N(b) == IF b THEN 1 ELSE 0
ClockValid(hz, ext) == hz % (2 * ext) = 0 /\ hz >= 10 * ext
=============================================================================
