------------------------------ MODULE ALUTable ------------------------------
(***************************************************************************)
(* Exhaustive conformance of the arithmetic.  A line of the table is       *)
(* <<id, x, results>>: the real instruction `id` executed with first       *)
(* operand x and every combination of its other operands, in order.        *)
(***************************************************************************)
EXTENDS Z80ALU, TLC, Json, IOUtils
CONSTANTS Chunks, Batch

Lines == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Lines)
P(rf) == rf[1] * 256 + rf[2]

LastB == <<0, 1, 2, 129, 169>>
Bc1(j) == IF j % 2 = 0 THEN 0 ELSE 1          \* BC after decrement, is it non-zero
(* expected result number j (from 0) of line <<id, x, _>> *)
Exp(id, x, j) ==
  CASE id < 8 -> P(Alu(id, x, j \div 2, j % 2))
    [] id = 10 -> P(Inc8(x, j))
    [] id = 11 -> P(Dec8(x, j))
    [] id \in 20..27 -> P(Rot(id - 20, x, j))
    [] id \in 30..37 -> x * 256 + BitF(id - 30, x, x, j)
    [] id \in 40..47 -> ResB(id - 40, x) * 256 + j
    [] id \in 50..57 -> SetB(id - 50, x) * 256 + j
    [] id \in 60..63 -> P(RotA(id - 60, x, j))
    [] id = 64 -> P(Daa(x, j))
    [] id = 65 -> P(Cpl(x, j))
    [] id = 66 -> P(Neg(x))
    [] id = 67 -> x * 256 + Scf(Or8(x, j), j)
    [] id = 68 -> x * 256 + Ccf(Or8(x, j), j)
    [] id = 70 -> LET r == Rld(x, j \div 2, j % 2) IN r[2] * 65536 + r[1] * 256 + r[3]
    [] id = 71 -> LET r == Rrd(x, j \div 2, j % 2) IN r[2] * 65536 + r[1] * 256 + r[3]
    [] id \in 80..87 -> BitF(id - 80, x, j, 0)
    [] id \in 90..95 ->
         LET v == j \div 2
             f == ((x + v) % 2) + Bit(v, 1) * 128 + Bit(v, 2) * 64
             bc1 == Bc1(j)
         IN IF id <= 91 THEN x * 256 + LdiF(x, v, bc1, f)
            ELSE x * 256 + CpiF(x, v, bc1, f)
                 + (IF id >= 94 /\ bc1 # 0 /\ x # v THEN 65536 ELSE 0)
    [] id \in 96..99 ->
         LET k == j \div 5
             b1 == U8(LastB[(j % 5) + 1] + 255)
             add == CASE id = 96 -> U8(k + 1) [] id = 97 -> U8(k + 255)
                      [] id = 98 -> U8(k + 1) [] id = 99 -> U8(k + 255)
         IN b1 * 256 + IoBlkF(x, b1, add)
    [] id = 100 -> x * 256 + InF(x, j)
    [] id \in 110..121 ->
         LET fl == (id - 110) \div 4   op == ((id - 110) \div 2) % 2   lq == (id - 110) % 2
             q == IF fl = 1 \/ lq = 1 THEN x ELSE Or8(x, j)
         IN x * 256 + (IF op = 0 THEN Scf(q, j) ELSE Ccf(q, j))
    [] id \in 130..135 ->
         LET fl == (id - 130) \div 2
             f == CASE j % 3 = 0 -> 0 [] j % 3 = 1 -> 1 [] j % 3 = 2 -> 255
             i1 == (j \div 3) % 2  irq == (j \div 6) % 2  i2 == (j \div 12) % 2
             pv == IF i2 = 1 /\ ~(fl = 0 /\ i1 = 1 /\ irq = 1) THEN 4 ELSE 0
         IN x * 256 + SZXY[x] + pv + CF(f)
    [] id = 150 -> U16(x * 256 + j + 1)
    [] id = 151 -> U16(x * 256 + j + 65535)

Wide(id, x, y, f) == CASE id = 140 -> Add16(x, y, f) [] id = 141 -> Adc16(x, y, f)
                       [] id = 142 -> Sbc16(x, y, f) [] id \in {143, 144} -> Add16(x, y, f)

BadOf(l) ==
  LET id == l[1]  x == l[2]  res == l[3] IN
  IF id \in 140..144
  THEN { j \in 0..(Len(res) \div 5) - 1 :
           Wide(id, res[5*j+1], res[5*j+2], res[5*j+3]) # <<res[5*j+4], res[5*j+5]>> }
  ELSE { j \in 0..Len(res) - 1 : Exp(id, x, j) # res[j+1] }
Report(l, b) ==
  LET j == CHOOSE j \in b : \A k \in b : j <= k IN
  IF l[1] \in 140..144
  THEN <<l[1], SubSeq(l[3], 5*j+1, 5*j+5), Wide(l[1], l[3][5*j+1], l[3][5*j+2], l[3][5*j+3])>>
  ELSE <<l[1], l[2], j, "expected", Exp(l[1], l[2], j), "got", l[3][j+1]>>

VARIABLES chunk, i, bad
First(k) == ((k - 1) * N) \div Chunks + 1
Last(k) == (k * N) \div Chunks
Init == chunk \in 1..Chunks /\ i = First(chunk) /\ bad = {}
Next == /\ bad = {} /\ i <= Last(chunk)
        /\ bad' = BadOf(Lines[i])
        /\ IF bad' = {} THEN TRUE ELSE PrintT(<<"MISMATCH", i, Report(Lines[i], bad')>>)
        /\ i' = i + 1
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, i, bad>>
Conforms == bad = {}
=============================================================================
