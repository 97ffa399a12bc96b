-------------------------------- MODULE Z80Names --------------------------------
(***************************************************************************)
(* Names and codes: which operand a code stands for, what it is called,    *)
(* which instruction a constant encodes, and what the flag and register    *)
(* pair helpers compute.                                                   *)
(***************************************************************************)
EXTENDS Z80Dis
B1(p) == IF p THEN 1 ELSE 0
(* name, name, code, code; nothing where the code stands for no register *)
Named(n, c) == << n, n, c, c >>
Reg8Of(c) == IF c % 8 = 6 THEN <<>> ELSE Named(RName(c % 8, 0), c % 8)
PField(c) == (c \div 16) % 4
YField(c) == (c \div 8) % 8
StkOf(c) == Named(IF PField(c) = 3 THEN "AF" ELSE RPName(PField(c), 0), 16 * PField(c))
Reg16Of(c) == Named(RPName(PField(c), 0), 16 * PField(c))
CondOf(c) == Named(CCName(YField(c)), 8 * YField(c))
JrOf(c) == Named(CCName(YField(c) % 4), 8 * (YField(c) % 4))
PrefixOf(c) == IF c \in {221, 253} THEN << IName(c), c, c >> ELSE <<>>
ModeOf(c) == IF c \in 0..2 THEN << c, c >> ELSE <<>>

(* what an opcode is, by its disassembly *)
Ins(c) == Dis1(<< c, 0, 0, 0 >>, 0, 0)
Is(c, mn, nargs) == Ins(c).mn = mn /\ Len(Ins(c).args) = nargs
EdIns(c) == DisED(<< 237, c, 0, 0 >>)
Kinds(c) ==
  LET prefix(p) == B1(c = p)
      plain(mn, n) == B1(c \notin {203, 221, 237, 253} /\ Is(c, mn, n))
      rst(a) == B1(c \notin {203, 221, 237, 253} /\ Is(c, "RST", 1) /\ Ins(c).args[1][2] = a)
  IN << plain("RET", 1), plain("CALL", 2), plain("JP", 2), plain("JR", 2), plain("RST", 1),
        B1(EdIns(c).mn \in {"RETN", "RETI"}), prefix(237), prefix(221), prefix(253),
        plain("NOP", 0), plain("HALT", 0), plain("DI", 0), plain("EI", 0), plain("RET", 0),
        B1(EdIns(c).mn = "RETI"), B1(c = 69),      \* the documented RETN of the eight encodings
        plain("CALL", 1),
        B1(c \notin {203, 221, 237, 253} /\ Is(c, "JP", 1) /\ Ins(c).len = 3), plain("JR", 1), plain("DJNZ", 1),
        rst(0), rst(8), rst(16), rst(24), rst(32), rst(40), rst(48), rst(56) >>
(* a code built from a base and the condition of c is that instruction with that condition *)
BuiltOk(c, b) ==
  LET cc == Tx(CCName(YField(c)))   jc == Tx(CCName(YField(c) % 4)) IN
  /\ Is(b[1], "RET", 1) /\ Ins(b[1]).args[1] = cc
  /\ Is(b[2], "CALL", 2) /\ Ins(b[2]).args[1] = cc
  /\ Is(b[3], "JP", 2) /\ Ins(b[3]).args[1] = cc
  /\ Is(b[4], "JR", 2) /\ Ins(b[4]).args[1] = jc
  /\ Is(b[5], "RST", 1) /\ Ins(b[5]).args[1][2] = 8 * YField(c)
CodeOk(r) ==
  LET c == r[2] IN
  /\ r[3] = Reg8Of(c) /\ r[4] = StkOf(c) /\ r[5] = StkOf(c) /\ r[6] = Reg16Of(c) /\ r[7] = Reg16Of(c)
  /\ r[8] = CondOf(c) /\ r[9] = CondOf(c) /\ r[10] = JrOf(c) /\ r[11] = PrefixOf(c) /\ r[12] = ModeOf(c)
  /\ r[13] = Kinds(c) /\ BuiltOk(c, r[14]) /\ r[15] = 102

---------------------------------------------------------------------------
(* flag helpers; bit positions C 1, N 2, PV 4, X 8, H 16, Y 32, Z 64, S 128 *)
FBit(f, m) == (f \div m) % 2
FlagsOk(r) ==
  LET f == r[2] IN
  /\ r[3] = << FBit(f, 128), FBit(f, 64), FBit(f, 16), FBit(f, 4), FBit(f, 2), FBit(f, 1) >>
  /\ r[4] = << 1 - FBit(f, 64), FBit(f, 64), 1 - FBit(f, 1), FBit(f, 1), 1 - FBit(f, 4), FBit(f, 4), 1 - FBit(f, 128), FBit(f, 128) >>
  /\ r[5] = << f, 0, 128 * FBit(f, 128), IF f = 0 THEN 64 ELSE 0, ParT[f],
               8 * FBit(f, 8) + 32 * FBit(f, 32), 8 * FBit(f, 8) + 32 * FBit(f, 32) + 128 * FBit(f, 128) >>
BoolsOk(r) == LET a == r[2][1]  b == r[2][2]  c == r[2][3] IN r[3] = << a + 4 * b + 64 * c, a, 2 * a, 16 * a, 17 * a, 4 * a >>
FlagConsts == << 1, 2, 4, 8, 16, 32, 64, 128, 4, 4, 40, 15, 255, 0, 0 >>

CondCode(s) == IF \E y \in 0..7 : CCName(y) = s THEN 8 * (CHOOSE y \in 0..7 : CCName(y) = s) ELSE -1

(* texts of a debugger argument *)
ArgOf(kind, p) ==
  CASE kind \in {"n", "nn", "a", "p"} -> << kind, p[1] >>
    [] kind = "i" -> << "i", p[1], p[2] >>
    [] kind = "bit" -> Tx(DigitOf(p[1]))
    [] kind = "im" -> Tx(DigitOf(p[1]))
    [] kind = "cond" -> Tx(CCName(p[1]))
    [] kind = "r8" -> Tx(RName(p[1], p[2]))
    [] kind = "r16" -> Tx(RPName(p[1], p[2]))
    [] kind = "stk" -> Tx(IF p[1] = 3 THEN "AF" ELSE RPName(p[1], 0))
    [] kind = "ra" -> Tx("(" \o RPName(p[1], 0) \o ")")
    [] kind = "ip" -> Tx("(" \o IName(p[1]) \o ")")
    [] kind \in {"I", "R"} -> Tx(kind)
    [] kind = "C" -> Tx("(C)")
Five(args) == [k \in 1..5 |-> Join(args, k - 1)]
FmtOk(r) ==
  LET a == ArgOf(r[2], r[3]) IN
  /\ r[4] = Five(<< a >>) /\ r[5] = Five(<< a >>) /\ r[6] = Five(<< a >>)
  /\ r[7] = Five(<< Tx("A"), a >>) /\ r[8] = Five(<< Tx("5"), a, Tx("E") >>)
AfOk(r) == r[2] = << "AF, AF'", "AF, AF'", "AF, AF'", "AF, AF'", "AF, AF'", "[]", "AF, AF'  |", "AF, AF'  |", "  AF, AF'|", " AF, AF'  |" >>

(* register pairs *)
PairOk(r) ==
  LET v == r[2]  w == r[3]  b == r[4]  h == Hi(v)  l == Lo(v)  dec == (v + 65535) % 65536 IN
  r[5] = << v, v, v, v, h, l, h, l, w, W(b, l), W(h, b), W(b, h), (v + 1) % 65536, (v + w) % 65536, dec, dec,
            W((l + b) % 256, h), W((h + b) % 256, l), W(h, (l + b) % 256), B1(dec = 0), 0, B1(v = w) >>

Breaks == << "a HALT instruction was executed", "an I/O write operation has requested a break",
             "a break was requested at the end of an interrupt service routine" >>
TableOk(r) ==
  CASE r[1] = "code" -> CodeOk(r)
    [] r[1] = "flags" -> FlagsOk(r)
    [] r[1] = "bools" -> BoolsOk(r)
    [] r[1] = "const" -> r[2] = FlagConsts
    [] r[1] = "parse" -> r[3] = CondCode(r[2])
    [] r[1] = "fmt" -> FmtOk(r)
    [] r[1] = "af" -> AfOk(r)
    [] r[1] = "pair" -> PairOk(r)
    [] r[1] = "break" -> r[2] = [k \in 1..3 |-> << Breaks[k], Breaks[k], Breaks[k] >>]
    [] r[1] = "im" -> r[2] = 0
    [] OTHER -> FALSE
=============================================================================
