------------------------------ MODULE TraceText ------------------------------
(***************************************************************************)
(* Validates recorded parses and numbers (driver families "text" and       *)
(* "number") against JVText and JVNumber.  One state per trace line; every *)
(* deviation is printed with the property it belongs to.                   *)
(***************************************************************************)
EXTENDS JVText, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

If(c, bad) == IF c THEN {} ELSE {bad}

(* One group of entry points that behaved alike.                            *)
CheckParse(j, g) ==
    IF g.p = 1 THEN {<<"C02", "panic">>} \cup (IF j.v = "acc" THEN {<<"C01", "panic">>} ELSE {})
    ELSE IF g.n = 1 THEN {<<"C02", "nil result">>}
    ELSE IF j.v = "acc" THEN
        IF g.e = 1 \/ g.vt = 0 THEN {<<"C01", "well-formed text refused">>}
        ELSE If(g.tree = j.tree, <<"C01", "wrong tree">>)
             \cup If(g.oe = 0 /\ WellFormed(g.out), <<"C02", "parsed value marshals to malformed text">>)
    ELSE IF j.v = "ref" THEN
        If(g.e # 0 /\ g.vt = 0, <<"C02", "malformed text accepted">>)
        \cup (IF j.out THEN If(g.e # 0 /\ g.vt = 0, <<"C03", "number out of range accepted">>) ELSE {})
    ELSE IF g.e = 1 THEN If(g.vt = 0, <<"C02", "error with an existing value">>)
    ELSE IF g.e = 2 /\ g.vt = 0 THEN {}
    ELSE If(g.vt # 0, <<"C02", "no error but a NotExist value">>)
         \cup If(g.vt = 0 \/ (g.oe = 0 /\ WellFormed(g.out)),
                 <<"C02", "parsed value marshals to malformed text">>)

CheckText(x) ==
    LET j == Judge(x.in)
    IN UNION {CheckParse(j, x.g[i]) : i \in 1..Len(x.g)}
       \cup If(Len(x.g) <= 2 \/ j.v = "free", <<"C01", "entry points disagree">>)

(* Texts nested deeper than JSON readers like: the tree is logged as a list
   of nodes in preorder, <<type, text, key, number of children>>.           *)
RECURSIVE Flat(_, _)
Flat(n, key) ==
    FoldLeft(LAMBDA acc, i : acc \o Flat(n.e[i], IF n.t = TObj THEN n.k[i] ELSE <<>>),
             << <<n.t, n.s, key, Len(n.e)>> >>, [i \in 1..Len(n.e) |-> i])
CheckDeep(x) ==
    LET j == Judge(x.in)
    IN IF x.p = 1 THEN {<<"C02", "panic">>} \cup If(j.v # "acc", <<"C01", "panic">>)
       ELSE IF j.v = "acc" THEN If(x.e = 0 /\ x.fl = Flat(j.tree, <<>>), <<"C01", "wrong tree (deep)">>)
                                \cup If(x.same = 1, <<"C01", "entry points disagree">>)
       ELSE IF j.v = "ref" THEN If(x.e = 1, <<"C02", "malformed text accepted">>)
       ELSE {}

(* A document x.in of x.n levels: parsed, built from the inside, or made by one
   call; then read, written, copied, compared, exported and walked.           *)
CheckDeepDoc(x) ==
    LET want == Flat(Judge(x.in).tree, <<>>)
        back == Judge(x.m)
        made == CASE x.how = "text" -> "C01" [] OTHER -> "C12"
    IN IF x.pan = 1 THEN {<<c, "panic (deep)">> : c \in {"C04", "C10", "C12", "C18", "C20", "C22", "C23", "C24", "C28"}}
       ELSE IF x.fl # want THEN {<<made, "wrong tree (deep)">>}
       ELSE If(x.at = x.leaf, <<"C10", "innermost value (deep)">>)
            \cup If(x.me = 0 /\ back.v = "acc" /\ Flat(back.tree, <<>>) = want /\ x.rt = want, <<"C04", "text of the value (deep)">>)
            \cup If(x.cp = want, <<"C24", "Import of the value (deep)">>)
            \cup If(x.cp2 = want, <<"C22", "value inside a Go value (deep)">>)
            \cup If(x.eq = 1 /\ x.ne = 1, <<"C20", "Equal (deep)">>)
            \cup If(x.cn = 1, <<"C28", "Contains (deep)">>)
            \cup If(x.exp = <<1>>, <<"C23", "Export (deep)">>)
            \cup If(x.vis = x.n, <<"C18", "iteration (deep)">>)

(* ------------------------------ numbers -------------------------------- *)
Abs(d) == [d EXCEPT !.neg = FALSE]
NegLit(lit) == lit # <<>> /\ lit[1] = 45
IsZero(lit) == Dec(lit).d = <<>> \/ Dec(lit).e <= -323      \* also those whose float64 may be zero

(* The accessors of a number value whose literal is lit                     *)
Accessors(lit, a, c) ==
    LET int == NumIsInt(lit)
        ok  == a.vt = 2 /\ a.isn = 1
               /\ a.isf = (IF int THEN 0 ELSE 1) /\ a.isi = (IF int THEN 1 ELSE 0)
        sgn == IsZero(lit) \/ (a.neg = (IF NegLit(lit) THEN 1 ELSE 0) /\ a.pos = 1 - a.neg)
        gt  == a.gt = (IF int /\ CmpDec(Dec(lit), I64Max) > 0 THEN 1 ELSE 0)
        i   == (int /\ InI64(lit)) => (NumEqual(a.i64, lit) /\ NumEqual(a.int, lit))
        u   == (int /\ InU64(lit)) => (NumEqual(a.u64, lit) /\ NumEqual(a.uint, lit))
        i32 == (int /\ CmpDec(Abs(Dec(lit)), Dec(Str(<<2,1,4,7,4,8,3,6,4,7>>))) <= 0) => NumEqual(a.i32, lit)
        u32 == (int /\ CmpDec(Dec(lit), Zero) >= 0 /\ CmpDec(Dec(lit), Dec(Str(<<4,2,9,4,9,6,7,2,9,5>>))) <= 0)
                 => NumEqual(a.u32, lit)
    IN If(ok, <<c, "IsFloat/IsInteger">>) \cup If(sgn, <<c, "IsNegative/IsPositive">>)
       \cup If(gt, <<c, "GreaterThanInt64Max">>) \cup If(i, <<c, "Int64">>) \cup If(u, <<c, "Uint64">>)
       \cup If(i32, <<c, "Int32">>) \cup If(u32, <<c, "Uint32">>)
       \cup If(a.lit = lit, <<c, "String">>) \cup If(a.me = 0 /\ a.mar = lit, <<c, "Marshal">>)

(* lit lies in the interval of reals that round to a given float            *)
InInterval(lit, lo, hi, even) ==
    LET d == Abs(Dec(lit))
        a == CmpDec(d, Dec(lo))
        b == CmpDec(d, Dec(hi))
    IN (a > 0 /\ b < 0) \/ (even = 1 /\ a >= 0 /\ b <= 0)

FloatAgrees(lit, a) ==
    a.ff = 1 /\ InInterval(lit, a.flo, a.fhi, a.fev)
    /\ (a.fneg = 1 => NegLit(lit)) /\ (NegLit(lit) => (a.fneg = 1 \/ a.flo = <<48>>))

CheckNum(x) ==
    LET j == Judge(x.pre \o x.lit \o x.suf)
    IN IF x.p = 1 THEN {<<"C02", "panic">>, <<"C03", "panic">>}
       ELSE IF j.v = "ref" THEN If(x.ok = 0, <<"C03", "bad number accepted">>)
                                \cup If(x.ok = 0, <<"C02", "bad number accepted">>)
       ELSE IF j.v = "free" THEN {}
       ELSE IF ~NumGrammar(x.lit) THEN {}          \* not one number: "", "1,", ...
       ELSE IF x.ok # 1 THEN {<<"C03", "number refused">>, <<"C01", "number refused">>}
       ELSE Accessors(x.lit, x.a, "C03") \cup If(FloatAgrees(x.lit, x.a), <<"C03", "Float64">>)

CheckNew(x) ==
    IF x.p = 1 THEN {<<"C03", "panic">>}
    ELSE LET lit == x.a.lit
             base == IF ~NumGrammar(lit) THEN {<<"C03", "malformed literal">>}
                     ELSE IF x.how = "int" THEN If(lit = x.val, <<"C03", "literal of a Go integer">>)
                                                \cup Accessors(lit, x.a, "C03")
                     ELSE LET a == x.a
                              int == NumIsInt(lit)
                          IN If(a.isf = (IF int THEN 0 ELSE 1) /\ a.isi = 1 - a.isf, <<"C03", "IsFloat/IsInteger">>)
                             \cup If(IsZero(lit) \/ (a.neg = (IF NegLit(lit) THEN 1 ELSE 0) /\ a.pos = 1 - a.neg),
                                     <<"C03", "IsNegative/IsPositive">>)
                             \cup If(a.mar = lit /\ a.me = 0, <<"C03", "Marshal">>)
                             \cup (IF x.how = "float"
                                   THEN If(InInterval(lit, x.nlo, x.nhi, x.nev)
                                           /\ (IsZero(lit) \/ NegLit(lit) = NegLit(x.val)), <<"C03", "literal of a Go float">>)
                                        \cup If(NumAccepted(lit), <<"C04", "literal cannot be parsed back">>)
                                        \* a float32 above 2^63 may be written as a literal below it
                                        \cup If(\E d \in {lit, x.val} :
                                                 a.gt = (IF int /\ CmpDec(Dec(d), I64Max) > 0 THEN 1 ELSE 0),
                                                <<"C03", "GreaterThanInt64Max">>)
                                   ELSE {})
         IN base \cup If(x.fs = 1, <<"C03", "Float64 of a Go float">>)
                 \cup (IF x.how = "int" THEN If(FloatAgrees(x.val, x.a), <<"C03", "Float64 of a Go integer">>) ELSE {})

Bad(x) == CASE x.op = "txt" -> CheckText(x)
            [] x.op = "deep" -> CheckDeep(x)
            [] x.op = "deep2" -> CheckDeepDoc(x)
            [] x.op = "num" -> CheckNum(x)
            [] x.op = "new" -> CheckNew(x)
            [] x.op = "boom" -> {<<"C26", "parsing fails after much data">>}
            [] OTHER -> {<<"TOOL", "unknown line">>}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET b == Bad(Trace[l])
           IN b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Spec == Init /\ [][Next]_l
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
