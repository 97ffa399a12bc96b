------------------------------- MODULE Snapshot -------------------------------
(***************************************************************************)
(* The saved form of a CPU: what a save contains, and what restoring a     *)
(* document means.  A document is a tagged value:                          *)
(*   <<"n", number>> <<"s", string>> <<"b", 0/1>> <<"z", 0>> (null)        *)
(*   <<"a", <<values>> >>  <<"o", << <<name, value>>, ... >> >>            *)
(* Targets: 0..2 the typed CPUs, 3 the run-time type.                      *)
(***************************************************************************)
EXTENDS Z80
LOCAL INSTANCE FiniteSets
Tag(fl) == << "NMOS", "CMOS", "BM1" >>[fl + 1]
Digits == "0123456789abcdef"
UDigits == "0123456789ABCDEF"
HexDigit(ch) == LET k == { j \in 1..16 : SubSeq(Digits, j, j) = ch \/ SubSeq(UDigits, j, j) = ch }
                IN IF k = {} THEN -1 ELSE (CHOOSE j \in k : TRUE) - 1
RECURSIVE HexNum(_, _, _)
HexNum(s, j, acc) == IF j > Len(s) THEN acc
                     ELSE LET d == HexDigit(SubSeq(s, j, j))
                          IN IF d < 0 \/ acc * 16 + d > 65535 THEN -1 ELSE HexNum(s, j + 1, acc * 16 + d)
Strip(s) == IF Len(s) >= 1 /\ SubSeq(s, 1, 1) = "$" THEN SubSeq(s, 2, Len(s))
            ELSE IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "0x" THEN SubSeq(s, 3, Len(s)) ELSE s
Hex(s) == LET t == Strip(s) IN IF Len(t) = 0 THEN -1 ELSE HexNum(t, 1, 0)
IsByte(v) == v[1] = "n" /\ v[2] >= 0 /\ v[2] <= 255

(* each reader gives the value, or -1 *)
PairOf(v) ==
  CASE v[1] = "n" -> IF v[2] >= -32768 /\ v[2] <= 65535 THEN v[2] % 65536 ELSE -1
    [] v[1] = "s" -> Hex(v[2])
    [] v[1] = "a" -> IF Len(v[2]) = 2 /\ IsByte(v[2][1]) /\ IsByte(v[2][2]) THEN v[2][1][2] + 256 * v[2][2][2] ELSE -1
    [] OTHER -> -1
BoolOf(v) == IF v[1] = "b" THEN v[2] ELSE -1
ByteOf(v) == IF IsByte(v) THEN v[2] ELSE -1
ModeOf(v) == IF v[1] # "s" THEN -1
             ELSE CASE v[2] = "Mode0" -> 0 [] v[2] = "Mode1" -> 1 [] v[2] = "Mode2" -> 2 [] OTHER -> -1
PrefixOf(v) == IF v[1] = "z" THEN 0
               ELSE IF v[1] # "s" THEN -1
               ELSE CASE v[2] = "Xdd" -> 221 [] v[2] = "Yfd" -> 253 [] OTHER -> -1
TypeOf(v) == IF v[1] # "s" THEN -1
             ELSE CASE v[2] = "NMOS" -> NMOS [] v[2] = "CMOS" -> CMOS [] v[2] = "BM1" -> BM1 [] OTHER -> -1

(* the values of a field, under any of its names *)
Get(o, names) == SelectSeq(o, LAMBDA e : e[1] \in names)
Known == { "type", "af", "afAlt", "af_alt", "regs", "regsAlt", "regs_alt", "index", "pc", "sp", "memptr",
           "lastEi", "last_ei", "ir", "im", "iff1", "iff2", "halt", "prefix", "r", "flavour" }
Aliases == { {"type"}, {"af"}, {"afAlt", "af_alt"}, {"regs"}, {"regsAlt", "regs_alt"}, {"index"}, {"pc"}, {"sp"},
             {"memptr"}, {"lastEi", "last_ei"}, {"ir"}, {"im"}, {"iff1"}, {"iff2"}, {"halt"}, {"prefix"}, {"r"}, {"flavour"} }
Optional == { {"type"}, {"memptr"}, {"r"}, {"flavour"} }
Shape(o) == /\ \A k \in 1..Len(o) : o[k][1] \in Known
            /\ \A a \in Aliases : Len(Get(o, a)) = 1 \/ (a \in Optional /\ Len(Get(o, a)) = 0)
(* the one value of a field that is there *)
Field(o, names) == Get(o, names)[1][2]
Has(o, names) == Get(o, names) # <<>>
(* a document in the order of its fields, without their names *)
Zip(names, vs) == <<"o", [ k \in 1..Len(vs) |-> << names[k], vs[k] >> ] >>
Named(v, names, least) == IF v[1] = "a" /\ Len(v[2]) >= least /\ Len(v[2]) <= Len(names) THEN Zip(names, v[2]) ELSE v
Main == << "af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "memptr", "lastEi", "ir", "im",
           "iff1", "iff2", "halt", "prefix", "r", "flavour" >>
Document(v) == IF v[1] # "a" THEN v
               ELSE IF Len(v[2]) = 17 THEN Zip(Main, v[2])
               ELSE IF Len(v[2]) = 18 THEN Zip(<<"type">> \o Main, v[2]) ELSE v
SubPair(v, name) == IF v[1] # "o" \/ Len(Get(v[2], {name})) # 1 THEN -1 ELSE PairOf(Field(v[2], {name}))
FlagOf(v) == IF v[1] # "o" THEN -1
             ELSE LET q == Get(v[2], {"flagsModified", "flags_modified"})
                      l == Get(v[2], {"lastFlagsModified", "last_flags_modified"})
                  IN IF Len(q) > 1 \/ Len(l) > 1 THEN -1
                     ELSE IF l # <<>> /\ BoolOf(l[1][2]) = -1 THEN -1
                     ELSE IF q = <<>> THEN 0 ELSE BoolOf(q[1][2])

(* <<accepted, flavour, CPU>> *)
Restore(target, given) ==
  LET doc == Document(given)
      o == doc[2]
      bad == << 0, 9, DefaultCpu >>
  IN IF doc[1] # "o" \/ ~Shape(o) THEN bad
     ELSE
     LET F(n) == Field(o, n)
         regs == Named(F({"regs"}), << "bc", "de", "hl" >>, 3)
         alt == Named(F({"regsAlt", "regs_alt"}), << "bc", "de", "hl" >>, 3)
         index == Named(F({"index"}), << "ix", "iy" >>, 2)
         af == PairOf(F({"af"}))  af2 == PairOf(F({"afAlt", "af_alt"}))
         ir == PairOf(F({"ir"}))
         r == IF Has(o, {"r"}) THEN ByteOf(F({"r"})) ELSE IF ir = -1 THEN -1 ELSE ir % 256
         mp == IF Has(o, {"memptr"}) THEN PairOf(F({"memptr"})) ELSE 0
         ty == IF Has(o, {"type"}) THEN TypeOf(F({"type"})) ELSE NMOS
         fl == IF target = 3 THEN ty ELSE target
         q == IF Has(o, {"flavour"}) THEN FlagOf(Named(F({"flavour"}), << "flagsModified", "lastFlagsModified" >>, 0)) ELSE 0
         n == << af, af2, SubPair(regs, "bc"), SubPair(regs, "de"), SubPair(regs, "hl"),
                 SubPair(alt, "bc"), SubPair(alt, "de"), SubPair(alt, "hl"),
                 SubPair(index, "ix"), SubPair(index, "iy"), PairOf(F({"pc"})), PairOf(F({"sp"})), mp, ir, r,
                 BoolOf(F({"iff1"})), BoolOf(F({"iff2"})), BoolOf(F({"halt"})), BoolOf(F({"lastEi", "last_ei"})),
                 ModeOf(F({"im"})), PrefixOf(F({"prefix"})), fl, q >>
     IN IF \E k \in 1..23 : n[k] = -1 THEN bad
        ELSE << 1, fl,
          [ a |-> Hi(af), f |-> Lo(af), b |-> Hi(n[3]), c |-> Lo(n[3]), d |-> Hi(n[4]), e |-> Lo(n[4]),
            h |-> Hi(n[5]), l |-> Lo(n[5]), af2 |-> af2, bc2 |-> n[6], de2 |-> n[7], hl2 |-> n[8],
            ix |-> n[9], iy |-> n[10], sp |-> n[12], pc |-> n[11], mp |-> mp, i |-> Hi(ir),
            r |-> (Lo(ir) \div 128) * 128 + (r % 128), iff1 |-> n[16], iff2 |-> n[17], im |-> n[20],
            halt |-> n[18], ei |-> n[19], px |-> n[21], q |-> IF fl = CMOS THEN 0 ELSE q ] >>

(* a document is a save of a CPU: all the fields under their names, and restoring it gives the CPU back *)
IsSave(fl, c, doc) ==
  /\ doc[1] = "o"
  /\ { doc[2][k][1] : k \in 1..Len(doc[2]) } =
       { "type", "af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "memptr", "lastEi", "ir", "im",
         "iff1", "iff2", "halt", "prefix", "r", "flavour" }
  /\ Len(doc[2]) = 18
  /\ Restore(3, doc) = << 1, fl, c >>
=============================================================================
