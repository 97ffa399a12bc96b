------------------------------- MODULE Z80ALU -------------------------------
(***************************************************************************)
(* Arithmetic of the Z80: results and all eight flags of every 8-bit and   *)
(* 16-bit operation, as pure functions on naturals.                        *)
(* Flags: S=128 Z=64 Y=32 H=16 X=8 P/V=4 N=2 C=1.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

U8(v)  == v % 256
U16(v) == v % 65536
Hi(w)  == w \div 256
Lo(w)  == w % 256
W(h, l) == h * 256 + l
B2I(b) == IF b THEN 1 ELSE 0
Bit(v, n) == (v \div (2^n)) % 2
Sx8(v) == IF v > 127 THEN v - 256 ELSE v          \* two's complement

(* Bitwise operations on bytes, by nibble tables (functions on constants). *)
Bits4 == [v \in 0..15 |-> <<v % 2, (v \div 2) % 2, (v \div 4) % 2, v \div 8>>]
Mk4(b0, b1, b2, b3) == b0 + 2*b1 + 4*b2 + 8*b3
And4 == [i \in 0..255 |-> LET x == Bits4[i \div 16] y == Bits4[i % 16]
                          IN Mk4(x[1]*y[1], x[2]*y[2], x[3]*y[3], x[4]*y[4])]
And8(x, y) == 16 * And4[(x \div 16) * 16 + (y \div 16)] + And4[(x % 16) * 16 + (y % 16)]
Or8(x, y)  == x + y - And8(x, y)
Xor8(x, y) == x + y - 2 * And8(x, y)
Not8(x)    == 255 - x

XYT == [v \in 0..255 |-> Bit(v, 5) * 32 + Bit(v, 3) * 8]   \* bits 5 and 3 of v
OddOnes(v) == (Bit(v,0)+Bit(v,1)+Bit(v,2)+Bit(v,3)+Bit(v,4)+Bit(v,5)+Bit(v,6)+Bit(v,7)) % 2 = 1
SZXY == [v \in 0..255 |-> (IF v > 127 THEN 128 ELSE 0) + (IF v = 0 THEN 64 ELSE 0) + XYT[v]]
ParT == [v \in 0..255 |-> IF OddOnes(v) THEN 0 ELSE 4]
SZXYP == [v \in 0..255 |-> SZXY[v] + ParT[v]]
(* selections of the old flags *)
SZPT == [v \in 0..255 |-> Bit(v,7)*128 + Bit(v,6)*64 + Bit(v,2)*4]
CF(f) == f % 2
HF(f) == Bit(f, 4)
NF(f) == Bit(f, 1)
ZF(f) == Bit(f, 6)
PF(f) == Bit(f, 2)
SF(f) == Bit(f, 7)

Neg8(v) == v > 127

(* every operation returns <<result, flags>> *)
Add8(a, b, cy) ==
  LET r == a + b + cy
      v == r % 256
  IN << v, SZXY[v] + B2I(r > 255)
            + (IF (a % 16) + (b % 16) + cy > 15 THEN 16 ELSE 0)
            + (IF Neg8(a) = Neg8(b) /\ Neg8(v) # Neg8(a) THEN 4 ELSE 0) >>
Sub8(a, b, cy) ==
  LET r == a - b - cy
      v == r % 256
  IN << v, SZXY[v] + B2I(r < 0) + 2
            + (IF (a % 16) - (b % 16) - cy < 0 THEN 16 ELSE 0)
            + (IF Neg8(a) # Neg8(b) /\ Neg8(v) # Neg8(a) THEN 4 ELSE 0) >>
(* CP leaves A and takes bits 5 and 3 from the operand *)
Cp8(a, b) == LET s == Sub8(a, b, 0) IN << a, s[2] - XYT[s[1]] + XYT[b] >>
AndOp(a, b) == LET v == And8(a, b) IN << v, SZXYP[v] + 16 >>
OrOp(a, b)  == LET v == Or8(a, b)  IN << v, SZXYP[v] >>
XorOp(a, b) == LET v == Xor8(a, b) IN << v, SZXYP[v] >>

Inc8(v, f) == LET r == U8(v + 1)
              IN << r, SZXY[r] + CF(f) + (IF v % 16 = 15 THEN 16 ELSE 0) + (IF v = 127 THEN 4 ELSE 0) >>
Dec8(v, f) == LET r == U8(v - 1)
              IN << r, SZXY[r] + CF(f) + 2 + (IF v % 16 = 0 THEN 16 ELSE 0) + (IF v = 128 THEN 4 ELSE 0) >>

(* op: 0 ADD 1 ADC 2 SUB 3 SBC 4 AND 5 XOR 6 OR 7 CP *)
Alu(op, a, b, f) ==
  CASE op = 0 -> Add8(a, b, 0)     [] op = 1 -> Add8(a, b, CF(f))
    [] op = 2 -> Sub8(a, b, 0)     [] op = 3 -> Sub8(a, b, CF(f))
    [] op = 4 -> AndOp(a, b)       [] op = 5 -> XorOp(a, b)
    [] op = 6 -> OrOp(a, b)        [] op = 7 -> Cp8(a, b)

(* op: 0 RLC 1 RRC 2 RL 3 RR 4 SLA 5 SRA 6 SLL 7 SRL *)
Rot(op, v, f) ==
  LET b7 == v \div 128   b0 == v % 2   l == (v * 2) % 256   h == v \div 2
      r == CASE op = 0 -> l + b7             [] op = 1 -> h + 128 * b0
             [] op = 2 -> l + CF(f)          [] op = 3 -> h + 128 * CF(f)
             [] op = 4 -> l                  [] op = 5 -> h + 128 * b7
             [] op = 6 -> l + 1              [] op = 7 -> h
      c == IF op \in {0, 2, 4, 6} THEN b7 ELSE b0
  IN << r, SZXYP[r] + c >>
(* RLCA RRCA RLA RRA: S, Z, P/V survive *)
RotA(op, a, f) == LET r == Rot(op, a, f) IN << r[1], SZPT[f] + XYT[r[1]] + CF(r[2]) >>

(* BIT n, v; xy supplies bits 5 and 3 *)
BitF(n, v, xy, f) ==
  CF(f) + 16 + XYT[xy] + (IF Bit(v, n) = 0 THEN 68 ELSE IF n = 7 THEN 128 ELSE 0)
SetB(n, v) == IF Bit(v, n) = 1 THEN v ELSE v + 2^n
ResB(n, v) == IF Bit(v, n) = 1 THEN v - 2^n ELSE v

Daa(a, f) ==
  LET lo == a % 16
      cy == CF(f) = 1 \/ a > 153
      d  == (IF HF(f) = 1 \/ lo > 9 THEN 6 ELSE 0) + (IF cy THEN 96 ELSE 0)
      v  == IF NF(f) = 1 THEN U8(a - d) ELSE U8(a + d)
      h  == IF NF(f) = 1 THEN HF(f) = 1 /\ lo < 6 ELSE lo > 9
  IN << v, SZXYP[v] + B2I(cy) + 2 * NF(f) + (IF h THEN 16 ELSE 0) >>
Cpl(a, f) == << Not8(a), SZPT[f] + CF(f) + 18 + XYT[Not8(a)] >>
Neg(a)    == Sub8(0, a, 0)
(* q supplies bits 5 and 3 *)
Scf(q, f) == SZPT[f] + XYT[q] + 1
Ccf(q, f) == SZPT[f] + XYT[q] + 16 * CF(f) + (1 - CF(f))

Add16(x, y, f) ==
  LET r == x + y   v == U16(r)
  IN << v, SZPT[f] + XYT[Hi(v)] + B2I(r > 65535)
           + (IF (x % 4096) + (y % 4096) > 4095 THEN 16 ELSE 0) >>
SZ16(v) == (IF v > 32767 THEN 128 ELSE 0) + (IF v = 0 THEN 64 ELSE 0) + XYT[Hi(v)]
Neg16(v) == v > 32767
Adc16(x, y, f) ==
  LET r == x + y + CF(f)   v == U16(r)
  IN << v, SZ16(v) + B2I(r > 65535)
           + (IF (x % 4096) + (y % 4096) + CF(f) > 4095 THEN 16 ELSE 0)
           + (IF Neg16(x) = Neg16(y) /\ Neg16(v) # Neg16(x) THEN 4 ELSE 0) >>
Sbc16(x, y, f) ==
  LET r == x - y - CF(f)   v == U16(r)
  IN << v, SZ16(v) + B2I(r < 0) + 2
           + (IF (x % 4096) - (y % 4096) - CF(f) < 0 THEN 16 ELSE 0)
           + (IF Neg16(x) # Neg16(y) /\ Neg16(v) # Neg16(x) THEN 4 ELSE 0) >>

(* RLD / RRD on A and the byte m: <<A', m', flags>> *)
Rld(a, m, f) == LET a1 == (a \div 16) * 16 + m \div 16
                IN << a1, (m % 16) * 16 + (a % 16), SZXYP[a1] + CF(f) >>
Rrd(a, m, f) == LET a1 == (a \div 16) * 16 + (m % 16)
                IN << a1, (a % 16) * 16 + (m \div 16), SZXYP[a1] + CF(f) >>

(* block operations: bit 3 of n goes to X, bit 1 of n goes to Y *)
BlkXY(n) == Bit(n, 3) * 8 + Bit(n, 1) * 32
LdiF(a, m, bc1, f) == Bit(f,7)*128 + Bit(f,6)*64 + CF(f) + BlkXY(U8(a + m)) + (IF bc1 # 0 THEN 4 ELSE 0)
CpiF(a, m, bc1, f) ==
  LET v == U8(a - m)
      h == (a % 16) - (m % 16) < 0
  IN (IF v > 127 THEN 128 ELSE 0) + (IF v = 0 THEN 64 ELSE 0) + CF(f) + 2
     + (IF h THEN 16 ELSE 0) + BlkXY(U8(v - B2I(h))) + (IF bc1 # 0 THEN 4 ELSE 0)
(* INI/IND/OUTI/OUTD: b1 is B after decrement, m the byte, k the other addend *)
IoBlkF(m, b1, k) ==
  LET t == m + k
  IN SZXY[b1] + 2 * Bit(m, 7) + (IF t > 255 THEN 17 ELSE 0) + ParT[Xor8(t % 8, b1)]
(* IN r,(C) *)
InF(v, f) == SZXYP[v] + CF(f)
=============================================================================
