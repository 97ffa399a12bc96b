-------------------------------- MODULE Z80Dis --------------------------------
(***************************************************************************)
(* The disassembly of Z80 machine code: what a debugger or the             *)
(* disassembler shows for the bytes of an instruction.                     *)
(* An instruction is [mn |-> mnemonic, args |-> arguments, len |-> bytes   *)
(* after an effective prefix, px |-> effective prefix].                    *)
(***************************************************************************)
EXTENDS Z80

---------------------------------------------------------------------------
(* Arguments: <<"t", text>>, <<"n", byte>>, <<"nn", word>>, <<"a", address>>,
   <<"p", port>>, <<"i", prefix, displacement byte>> *)
Tx(t) == << "t", t >>
RName(r, px) ==
  CASE r = 0 -> "B" [] r = 1 -> "C" [] r = 2 -> "D" [] r = 3 -> "E" [] r = 7 -> "A"
    [] r = 4 -> (CASE px = 0 -> "H" [] px = 221 -> "IXH" [] px = 253 -> "IYH")
    [] r = 5 -> (CASE px = 0 -> "L" [] px = 221 -> "IXL" [] px = 253 -> "IYL")
IName(px) == CASE px = 0 -> "HL" [] px = 221 -> "IX" [] px = 253 -> "IY"
RPName(p, px) == CASE p = 0 -> "BC" [] p = 1 -> "DE" [] p = 2 -> IName(px) [] p = 3 -> "SP"
CCName(y) == << "NZ", "Z", "NC", "C", "PO", "PE", "P", "M" >>[y + 1]
RotName(y) == << "RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL" >>[y + 1]
AluName(y) == << "ADD", "ADC", "SUB", "SBC", "AND", "XOR", "OR", "CP" >>[y + 1]
AccName(y) == << "RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF" >>[y + 1]
BlkName(y, z) ==
  CASE z = 0 -> << "LDI", "LDD", "LDIR", "LDDR" >>[y - 3]
    [] z = 1 -> << "CPI", "CPD", "CPIR", "CPDR" >>[y - 3]
    [] z = 2 -> << "INI", "IND", "INIR", "INDR" >>[y - 3]
    [] z = 3 -> << "OUTI", "OUTD", "OTIR", "OTDR" >>[y - 3]
DigitOf(n) == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>[n + 1]
UDigitOf(n) == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>[n + 1]

(* B: the bytes from the instruction's opcode (after an effective prefix); missing bytes read 0xFF.
   pc: the address of the opcode byte *)
At(B, k) == IF k <= Len(B) THEN B[k] ELSE 255
I0(mn, args, len, px) == [ mn |-> mn, args |-> args, len |-> len, px |-> px ]
Word(B, k) == W(At(B, k + 1), At(B, k))
DisCB(op, px, opd) ==
  LET x == op \div 64   y == (op \div 8) % 8   z == op % 8
      loc == IF px # 0 THEN << "i", px, opd >> ELSE IF z = 6 THEN Tx("(HL)") ELSE Tx(RName(z, 0))
      extra == IF px # 0 /\ z # 6 /\ x # 1 THEN << Tx(RName(z, 0)) >> ELSE <<>>
      bit == << Tx(DigitOf(y)) >>
      len == IF px = 0 THEN 2 ELSE 3
  IN CASE x = 0 -> I0(RotName(y), << loc >> \o extra, len, px)
       [] x = 1 -> I0("BIT", bit \o << loc >>, len, px)
       [] x = 2 -> I0("RES", bit \o << loc >> \o extra, len, px)
       [] x = 3 -> I0("SET", bit \o << loc >> \o extra, len, px)
DisED(B) ==
  LET op == At(B, 2)
      x == op \div 64   y == (op \div 8) % 8   z == op % 8   p == y \div 2   q == y % 2
      reg == IF y = 6 THEN <<>> ELSE << Tx(RName(y, 0)) >>
  IN CASE x = 2 /\ y >= 4 /\ z <= 3 -> I0(BlkName(y, z), <<>>, 2, 0)
       [] x = 1 /\ z = 0 -> I0("IN", reg \o << Tx("(C)") >>, 2, 0)
       [] x = 1 /\ z = 1 -> I0("OUT", << Tx("(C)") >> \o reg, 2, 0)
       [] x = 1 /\ z = 2 -> I0(IF q = 0 THEN "SBC" ELSE "ADC", << Tx("HL"), Tx(RPName(p, 0)) >>, 2, 0)
       [] x = 1 /\ z = 3 -> LET a == << "a", Word(B, 3) >>  r == Tx(RPName(p, 0))
                            IN I0("LD", IF q = 0 THEN << a, r >> ELSE << r, a >>, 4, 0)
       [] x = 1 /\ z = 4 -> I0("NEG", <<>>, 2, 0)
       [] x = 1 /\ z = 5 -> I0(IF op = 77 THEN "RETI" ELSE "RETN", <<>>, 2, 0)
       [] x = 1 /\ z = 6 -> I0("IM", << Tx(DigitOf(ImOf(y))) >>, 2, 0)
       [] x = 1 /\ z = 7 /\ y <= 5 ->
            (CASE y = 0 -> I0("LD", << Tx("I"), Tx("A") >>, 2, 0)
               [] y = 1 -> I0("LD", << Tx("R"), Tx("A") >>, 2, 0)
               [] y = 2 -> I0("LD", << Tx("A"), Tx("I") >>, 2, 0)
               [] y = 3 -> I0("LD", << Tx("A"), Tx("R") >>, 2, 0)
               [] y = 4 -> I0("RRD", <<>>, 2, 0)
               [] y = 5 -> I0("RLD", <<>>, 2, 0))
       [] OTHER -> I0("NOP*", <<>>, 2, 0)
Dis1(B, pending, pc) ==
  LET op == At(B, 1)
      px == IF Affected(op) THEN pending ELSE 0
      x == op \div 64   y == (op \div 8) % 8   z == op % 8   p == y \div 2   q == y % 2
      d == At(B, 2)
      w == Word(B, 2)
      mem == IF px = 0 THEN Tx("(HL)") ELSE << "i", px, d >>
      ml == IF px = 0 THEN 1 ELSE 2               \* length with an optional displacement
      rel == << "nn", U16(pc + 2 + Sx8(d) + 65536) >>
      no(mn) == I0(mn, <<>>, 1, px)
      acc(k) == IF k \in {0, 1, 3} THEN << Tx("A") >> ELSE <<>>
      loc(r) == IF r = 6 THEN mem ELSE Tx(RName(r, px))
      llen(r) == IF r = 6 THEN ml ELSE 1
  IN CASE x = 0 /\ z = 0 ->
            (CASE y = 0 -> no("NOP") [] y = 1 -> I0("EX", << Tx("AF"), Tx("AF'") >>, 1, px)
               [] y = 2 -> I0("DJNZ", << rel >>, 2, px) [] y = 3 -> I0("JR", << rel >>, 2, px)
               [] OTHER -> I0("JR", << Tx(CCName(y - 4)), rel >>, 2, px))
       [] x = 0 /\ z = 1 -> IF q = 0 THEN I0("LD", << Tx(RPName(p, px)), << "nn", w >> >>, 3, px)
                            ELSE I0("ADD", << Tx(IName(px)), Tx(RPName(p, px)) >>, 1, px)
       [] x = 0 /\ z = 2 ->
            (CASE p = 0 -> I0("LD", IF q = 0 THEN << Tx("(BC)"), Tx("A") >> ELSE << Tx("A"), Tx("(BC)") >>, 1, px)
               [] p = 1 -> I0("LD", IF q = 0 THEN << Tx("(DE)"), Tx("A") >> ELSE << Tx("A"), Tx("(DE)") >>, 1, px)
               [] p = 2 -> I0("LD", IF q = 0 THEN << << "a", w >>, Tx(IName(px)) >> ELSE << Tx(IName(px)), << "a", w >> >>, 3, px)
               [] p = 3 -> I0("LD", IF q = 0 THEN << << "a", w >>, Tx("A") >> ELSE << Tx("A"), << "a", w >> >>, 3, px))
       [] x = 0 /\ z = 3 -> I0(IF q = 0 THEN "INC" ELSE "DEC", << Tx(RPName(p, px)) >>, 1, px)
       [] x = 0 /\ z \in {4, 5} -> I0(IF z = 4 THEN "INC" ELSE "DEC", << loc(y) >>, llen(y), px)
       [] x = 0 /\ z = 6 -> I0("LD", << loc(y), << "n", At(B, 1 + llen(y)) >> >>, 1 + llen(y), px)
       [] x = 0 /\ z = 7 -> no(AccName(y))
       [] x = 1 -> IF op = 118 THEN no("HALT")
                   ELSE IF z = 6 THEN I0("LD", << Tx(RName(y, 0)), mem >>, ml, px)
                   ELSE IF y = 6 THEN I0("LD", << mem, Tx(RName(z, 0)) >>, ml, px)
                   ELSE I0("LD", << Tx(RName(y, px)), Tx(RName(z, px)) >>, 1, px)
       [] x = 2 -> I0(AluName(y), acc(y) \o << loc(z) >>, llen(z), px)
       [] x = 3 /\ z = 0 -> I0("RET", << Tx(CCName(y)) >>, 1, px)
       [] x = 3 /\ z = 1 /\ q = 0 -> I0("POP", << Tx(IF p = 3 THEN "AF" ELSE RPName(p, px)) >>, 1, px)
       [] x = 3 /\ z = 1 /\ q = 1 ->
            (CASE p = 0 -> no("RET") [] p = 1 -> no("EXX")
               [] p = 2 -> I0("JP", << Tx("(" \o IName(px) \o ")") >>, 1, px)
               [] p = 3 -> I0("LD", << Tx("SP"), Tx(IName(px)) >>, 1, px))
       [] x = 3 /\ z = 2 -> I0("JP", << Tx(CCName(y)), << "nn", w >> >>, 3, px)
       [] x = 3 /\ z = 3 ->
            (CASE y = 0 -> I0("JP", << << "nn", w >> >>, 3, px)
               [] y = 1 -> IF px = 0 THEN DisCB(At(B, 2), 0, 0) ELSE DisCB(At(B, 3), px, At(B, 2))
               [] y = 2 -> I0("OUT", << << "p", d >>, Tx("A") >>, 2, px)
               [] y = 3 -> I0("IN", << Tx("A"), << "p", d >> >>, 2, px)
               [] y = 4 -> I0("EX", << Tx("(SP)"), Tx(IName(px)) >>, 1, px)
               [] y = 5 -> I0("EX", << Tx("DE"), Tx("HL") >>, 1, px)
               [] y = 6 -> no("DI") [] y = 7 -> no("EI"))
       [] x = 3 /\ z = 4 -> I0("CALL", << Tx(CCName(y)), << "nn", w >> >>, 3, px)
       [] x = 3 /\ z = 5 /\ q = 0 -> I0("PUSH", << Tx(IF p = 3 THEN "AF" ELSE RPName(p, px)) >>, 1, px)
       [] x = 3 /\ z = 5 /\ q = 1 -> IF p = 0 THEN I0("CALL", << << "nn", w >> >>, 3, px) ELSE DisED(B)
       [] x = 3 /\ z = 6 -> I0(AluName(y), acc(y) \o << << "n", d >> >>, 2, px)
       [] x = 3 /\ z = 7 -> I0("RST", << << "n", 8 * y >> >>, 1, px)

---------------------------------------------------------------------------
(* Text.  Styles: 0 decimal, 1 {:x}, 2 {:X}, 3 {:#x}, 4 {:#X} *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN DigitOf(n) ELSE Dec(n \div 10) \o DigitOf(n % 10)
RECURSIVE HexD(_, _, _)
HexD(n, digits, up) == IF digits = 0 THEN ""
                       ELSE HexD(n \div 16, digits - 1, up) \o (IF up THEN UDigitOf(n % 16) ELSE DigitOf(n % 16))
Up(st) == st \in {2, 4}
Alt(st) == st \in {3, 4}
Num(n, digits, st) ==
  IF st = 0 THEN Dec(n)
  ELSE IF Alt(st) THEN "0x" \o HexD(n, digits, Up(st)) ELSE HexD(n, digits, Up(st)) \o "h"
ArgText(a, st) ==
  CASE a[1] = "t" -> a[2]
    [] a[1] = "n" -> Num(a[2], 2, st)
    [] a[1] = "nn" -> Num(a[2], 4, st)
    [] a[1] = "a" -> "(" \o Num(a[2], 4, st) \o ")"
    [] a[1] = "p" -> "(" \o Num(a[2], 2, st) \o ")"
    [] a[1] = "i" -> "(" \o IName(a[2]) \o (IF a[3] < 128 THEN "+" \o Num(a[3], 2, st) ELSE "-" \o Num(256 - a[3], 2, st)) \o ")"
RECURSIVE Join(_, _)
Join(args, st) == IF args = <<>> THEN "" ELSE IF Len(args) = 1 THEN ArgText(args[1], st)
                  ELSE ArgText(args[1], st) \o ", " \o Join(Tail(args), st)
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadR(s, n) == s \o Spaces(n - Len(s))
PadL(s, n) == Spaces(n - Len(s)) \o s
RECURSIVE Bytes(_, _)
Bytes(c, st) == LET b == IF st = 0 THEN Dec(c[1]) ELSE HexD(c[1], 2, Up(st))
                IN IF Len(c) = 1 THEN b ELSE b \o ", " \o Bytes(Tail(c), st)
LineText(ins, code, pc, st) ==
  (CASE st = 0 -> PadL(Dec(pc), 5) [] st \in {1, 2} -> Num(pc, 4, st) [] OTHER -> Num(pc, 4, st))
  \o " " \o PadR(ins.mn, 4) \o " " \o PadR(Join(ins.args, st), IF Alt(st) THEN 15 ELSE 14)
  \o " [" \o Bytes(code, st) \o "]"

(* what is reported for an instruction whose opcode is at address pc, the bytes from there on being B:
   <<address of the first byte, code bytes, effective prefix, the five texts>> *)
Report(B, pending, pc) ==
  LET ins == Dis1(B, pending, pc)
      raw == [k \in 1..ins.len |-> At(B, k)]
      code == IF ins.px = 0 THEN raw ELSE << ins.px >> \o raw
      a == IF ins.px = 0 THEN pc ELSE U16(pc + 65535)
  IN << a, code, ins.px, [k \in 1..5 |-> LineText(ins, code, a, k - 1)] >>

(* disassembling a piece of memory: every instruction that fits, in order *)
RECURSIVE Listing(_, _, _, _)
Listing(B, pc0, k, px) ==   \* k bytes consumed
  IF k >= Len(B) THEN <<>>
  ELSE IF B[k + 1] \in {221, 253} THEN Listing(B, pc0, k + 1, B[k + 1])
  ELSE LET R == SubSeq(B, k + 1, Len(B))
           pc == U16(pc0 + k)
           ins == Dis1(R, px, pc)
       IN IF k + ins.len > Len(B) THEN <<>>
          ELSE << Report(R, px, pc) >> \o Listing(B, pc0, k + ins.len, 0)
=============================================================================
