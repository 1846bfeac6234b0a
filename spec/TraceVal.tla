------------------------------- MODULE TraceVal -------------------------------
(***************************************************************************)
(* Validates recorded comparisons, subset tests, typed reads and uses of    *)
(* missing values (driver family "val") against JVValues.  Every line is a  *)
(* call on values given in full, so there is no state to carry.             *)
(***************************************************************************)
EXTENDS JVValues, Json, IOUtils

RECURSIVE Digits(_)
Digits(i) == IF i < 10 THEN <<48 + i>> ELSE Append(Digits(i \div 10), 48 + (i % 10))

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

If(c, bad) == IF c THEN {} ELSE {bad}

CheckCmp(x) ==
    LET gone == x.an = 1 \/ x.bn = 1            \* a nil operand
        eq == ~gone /\ EqTree(x.a, x.b)
        eqp == {"C20"} \cup (IF ~gone /\ x.a.t = TNum /\ x.b.t = TNum THEN {"C21"} ELSE {})
        missing == ~gone /\ (x.a.t = TNot \/ x.b.t = TNot)
    IN IF x.pan = 1 THEN {<<p, "panic">> : p \in eqp \cup {"C21"}} \cup (IF missing THEN {<<"C29", "panic">>} ELSE {})
       ELSE (IF x.eq = Bit(eq) THEN {} ELSE {<<p, "Equal">> : p \in eqp}
                                           \cup (IF missing THEN {<<"C29", "Equal to a missing value">>} ELSE {}))
            \cup If(x.qe = Bit(eq), <<"C20", "Equal is not symmetric">>)
            \cup If(gone \/ x.r = Comparison(x.a, x.b), <<"C21", "number comparison">>)
            \cup If(x.same = 1, <<"C20", "comparing changed a value">>)

CheckCnt(x) ==
    IF x.pan = 1 THEN {<<"C28", "panic">>}
    ELSE LET want == x.how \in {"V", "go"} /\ x.f # 2 /\ ContainsAt(x.v, x.sub, x.p)
         IN If(x.r = Bit(want), <<"C28", "Contains">>) \cup If(x.same = 1, <<"C28", "Contains changed an argument">>)

Kinds == IntKinds \cup {"f64", "f32", "str", "bytes", "bool", "null", "obj", "arr"}
CheckGet(x) ==
    IF x.pan = 1 THEN {<<"C11", "panic">>} \cup (IF x.t.t = TNot THEN {<<"C29", "panic">>} ELSE {})
    ELSE LET h == Alloc(<<>>, x.t)
             rs == IF x.f = 2 THEN {[id |-> 0, c |-> 3]}
                   ELSE IF x.cl = 1 THEN CResolve(h, 1, x.p) ELSE {Resolve(h, 1, x.p)}
             fits(k) == \E r \in rs : GetterFits(k, r.c, IF r.id = 0 THEN NoNode ELSE TreeOf(h, r.id), x.g[k])
             bad == {k \in Kinds : ~fits(k)}
         IN {<<"C11", "getter " \o k>> : k \in bad}
            \cup (IF bad # {} /\ x.cl = 1 THEN {<<"C16", "caseless getter">>} ELSE {})
            \cup (IF bad # {} /\ x.t.t = TNot THEN {<<"C29", "getter of a missing value">>} ELSE {})
            \cup If(x.same = 1, <<"C11", "reading changed the value">>)

(* the accessors of one value                                               *)
CheckAcc(x) ==
    LET n == x.t   a == x.a
        fin == n.t = TNum /\ ~NonFinite(n.s)
        neg == fin /\ n.s[1] = 45
        zero == fin /\ (Dec(n.s).d = <<>> \/ Dec(n.s).e <= -323)   \* or underflows to zero
        bad == {k \in IntKinds : ~IntConv(AsLit(n), k, a[k])}
               \cup (IF FloatConv(AsLit(n), a.f64) THEN {} ELSE {"f64"})
               \cup (IF a.f32 = 1 THEN {} ELSE {"f32"})
               \cup (IF Truth(n) = 2 \/ a.bool = Truth(n) THEN {} ELSE {"Bool"})
               \cup (IF n.t \in {TObj, TArr} \/ a.str = Described(n) THEN {} ELSE {"String"})
               \cup (IF n.t # TStr \/ UnB64(n.s).v = "bad" THEN (IF a.bytes = <<>> THEN {} ELSE {"Bytes"})
                     ELSE IF UnB64(n.s).v = "ok" THEN (IF a.bytes = UnB64(n.s).b THEN {} ELSE {"Bytes"}) ELSE {})
               \cup (IF a.len = Len(n.e) THEN {} ELSE {"Len"})
               \cup (IF a.is = <<Bit(n.t = TObj), Bit(n.t = TArr), Bit(n.t = TStr), Bit(n.t = TNum), Bit(n.t = TBool), Bit(n.t = TNull)>>
                        /\ a.vt = n.t THEN {} ELSE {"type predicates"})
               \cup (IF n.t # TNum THEN (IF a.num = <<0, 0, 0, 0, 0>> THEN {} ELSE {"number predicates"})
                     ELSE IF ~fin THEN {}
                     ELSE IF a.num[1] = Bit(~NumIsInt(n.s)) /\ a.num[2] = Bit(NumIsInt(n.s))
                             /\ (zero \/ (a.num[3] = Bit(neg) /\ a.num[4] = Bit(~neg)))
                             /\ a.num[5] = Bit(NumIsInt(n.s) /\ CmpDec(Dec(n.s), I64Max) > 0)
                          THEN {} ELSE {"number predicates"})
    IN IF x.pan = 1 THEN {<<"C11", "panic">>} \cup (IF n.t = TNot THEN {<<"C29", "panic">>} ELSE {})
       ELSE {<<"C11", "accessor " \o k>> : k \in bad}
            \cup (IF n.t = TNot /\ bad # {} THEN {<<"C29", "accessor of a missing value">>} ELSE {})
            \cup (IF fin /\ "number predicates" \in bad THEN {<<"C03", "number predicates">>} ELSE {})
            \cup If(x.same = 1, <<"C11", "reading changed the value">>)

CheckB64(x) ==      \* bytes in, by any setter; the text stored and the bytes read back
    IF x.pan = 1 THEN {<<"C11", "panic">>}
    ELSE If(x.ok = 1 /\ x.lit = B64(x.b), <<"C11", "Base64 text">>)
         \cup If(x.back = x.b /\ x.gets = x.b /\ x.ge = 0, <<"C11", "Base64 round trip">>)

(* What every use of a missing value must observe                           *)
NotExistReads ==
    [vt |-> 0, is |-> <<0, 0, 0, 0, 0, 0>>, len |-> 0, visits |-> 0, lists |-> 0, equal |-> 0, order |-> 0,
     marshalok |-> 0, bytesout |-> 0, exportok |-> 0, mutated |-> 0, refused |-> 1, retexists |-> 0, still |-> 1,
     found |-> 0, imported |-> 0, contains |-> 0]
CheckNe(x) ==
    IF x.pan # <<>> THEN {<<"C29", "panic">>}
    ELSE {<<"C29", "missing value: " \o k>> : k \in {k \in DOMAIN NotExistReads : x.o[k] # NotExistReads[k]}}

(* every way of iterating visits every member or element once               *)
CheckRan(x) ==
    LET n == x.t
        Numbers == [i \in 1..Len(n.e) |-> Digits(i - 1)]
        members(f) == {<<f.k[i], f.e[i]>> : i \in 1..Len(f.k)}
        want(f) ==
            CASE f.n \in {"RangeArray", "ForRangeArr", "IterArray"} ->
                    IF n.t = TArr THEN f.k = Numbers /\ f.e = n.e ELSE f.k = <<>>
              [] f.n = "RangeObjectsBySetSequence" ->
                    IF n.t = TObj THEN f.k = n.k /\ f.e = n.e ELSE f.k = <<>>
              [] OTHER -> IF n.t = TObj THEN Len(f.k) = Len(n.k) /\ members(f) = members([k |-> n.k, e |-> n.e])
                          ELSE f.k = <<>>
        wrong == {i \in 1..Len(x.f) : ~want(x.f[i])}
    IN IF x.pan = 1 THEN {<<"C18", "panic">>}
       ELSE {<<"C18", "iteration " \o x.f[i].n>> : i \in wrong} \cup If(Len(x.f) = 7, <<"TOOL", "iteration forms">>)

Bad(x) == CASE x.op = "cmp" -> CheckCmp(x)
            [] x.op = "cnt" -> CheckCnt(x)
            [] x.op = "get" -> CheckGet(x)
            [] x.op = "acc" -> CheckAcc(x)
            [] x.op = "b64" -> CheckB64(x)
            [] x.op = "ne" -> CheckNe(x)
            [] x.op = "ran" -> CheckRan(x)
            [] OTHER -> {<<"TOOL", "unknown line">>}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET b == Bad(Trace[l])
           IN b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Spec == Init /\ [][Next]_l
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
