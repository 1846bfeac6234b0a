-------------------------------- MODULE MCVal --------------------------------
(***************************************************************************)
(* Exhaustive exploration of values seen from outside: every pair of number *)
(* literals over a small alphabet, every pair of small trees, every typed   *)
(* getter on small documents.  A behaviour picks what is compared in two    *)
(* steps; the second step is printed (@@T) and replayed by the driver.       *)
(*                                                                         *)
(* The invariants are the laws the properties promise, checked on the       *)
(* specification itself: exact agreement of the decimal comparison with     *)
(* integer arithmetic, total order, equivalence, containment is a partial   *)
(* order whose equivalence is Equal, getters are functions of the document. *)
(***************************************************************************)
EXTENDS JVValues, Json

CONSTANTS Deep, Kinds, Emitting

VARIABLES kind, x, y, p, stage
vars == <<kind, x, y, p, stage>>

(* ------------------------------- literals ------------------------------ *)
(* a literal written from parts, with its value times 10^5                  *)
Mants == { [s |-> <<48>>, v |-> 0], [s |-> <<49>>, v |-> 1000], [s |-> <<57>>, v |-> 9000],
           [s |-> <<49, 48>>, v |-> 10000], [s |-> <<57, 57>>, v |-> 99000],
           [s |-> <<49, 46, 48>>, v |-> 1000], [s |-> <<48, 46, 49>>, v |-> 100],
           [s |-> <<48, 46, 49, 48>>, v |-> 100], [s |-> <<49, 46, 48, 49>>, v |-> 1010],
           [s |-> <<48, 46, 48, 49>>, v |-> 10], [s |-> <<57, 46, 57, 57>>, v |-> 9990],
           [s |-> <<48, 46, 48>>, v |-> 0] }
         \cup (IF Deep THEN { [s |-> <<49, 48, 48>>, v |-> 100000], [s |-> <<49, 48, 49>>, v |-> 101000],
                              [s |-> <<49, 48, 46, 48, 48, 48>>, v |-> 10000], [s |-> <<48, 46, 48, 48, 49>>, v |-> 1],
                              [s |-> <<57, 57, 46, 57, 57, 57>>, v |-> 99999], [s |-> <<49, 46, 49, 48, 48>>, v |-> 1100] } ELSE {})
Exps == { [s |-> <<>>, e |-> 0], [s |-> <<101, 49>>, e |-> 1], [s |-> <<69, 43, 48, 50>>, e |-> 2],
          [s |-> <<101, 45, 49>>, e |-> -1], [s |-> <<69, 45, 48, 48, 50>>, e |-> -2] }
        \cup (IF Deep THEN { [s |-> <<101, 48>>, e |-> 0], [s |-> <<69, 48, 50>>, e |-> 2], [s |-> <<101, 45, 48, 48, 48, 49>>, e |-> -1] } ELSE {})
Signs == { [s |-> <<>>, g |-> 1], [s |-> <<45>>, g |-> -1] }
Lits == { [s |-> g.s \o m.s \o e.s, v |-> g.g * m.v * 10 ^ (e.e + 2)] : g \in Signs, m \in Mants, e \in Exps }
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Odd3 == {LitNaN, LitPInf, LitNInf}

(* --------------------------------- trees ------------------------------- *)
a == <<97>>   b == <<98>>
One == NumNode(<<49>>)
Scalars == { One, NumNode(<<49, 46, 48>>), NumNode(<<50>>), StrNode(<<49>>), BoolNode(1), NullNode }
Few == { One, NumNode(<<49, 46, 48>>), NullNode }
Arrs(S, n) == UNION { {ArrNode(q) : q \in [1..k -> S]} : k \in 0..n }
Objs(S) == { ObjNode(<<>>, <<>>) }
           \cup { ObjNode(<<k>>, <<v>>) : k \in {a, b}, v \in S }
           \cup { ObjNode(ks, <<v, w>>) : ks \in {<<a, b>>, <<b, a>>}, v \in S, w \in S }
Flats == Arrs(Few, IF Deep THEN 3 ELSE 2) \cup Objs(Few)
Nested == LET S == {One, ArrNode(<<>>), ArrNode(<<One>>), ObjNode(<<>>, <<>>), ObjNode(<<a>>, <<One>>)} \cup
                   (IF Deep THEN {ObjNode(<<a, b>>, <<One, NullNode>>), ArrNode(<<NullNode, One>>)} ELSE {})
          IN Arrs(S, 2) \cup Objs(S)
Trees == Scalars \cup Flats \cup Nested

(* -------------------------------- getters ------------------------------ *)
Text(s) == StrNode(s)
Leaves == Scalars \cup
          { Text(<<>>), Text(<<32>>), Text(<<116, 114, 117, 101>>), Text(<<32, 49, 50, 32>>), Text(<<45, 49>>), Text(<<49, 46, 53>>),
            Text(<<49, 101, 51>>), Text(<<48, 48>>), Text(<<89, 81, 61, 61>>), Text(<<89, 81>>), Text(<<89, 87, 74, 106>>), Text(<<33>>),
            NumNode(<<45, 49>>), NumNode(<<48>>), NumNode(<<48, 46, 48>>), NumNode(<<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>),
            NumNode(<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>),
            NumNode(<<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>),
            NumNode(<<49, 46, 53>>), NumNode(<<45, 50, 46, 53, 101, 49>>), NumNode(<<49, 101, 45, 57, 57>>),
            BoolNode(0), ArrNode(<<>>), ObjNode(<<>>, <<>>), ArrNode(<<One>>), ObjNode(<<a>>, <<One>>) }
GDocs == UNION { { ObjNode(<<a>>, <<n>>), ObjNode(<<<<65>>, a>>, <<NullNode, n>>), ArrNode(<<n>>), ArrNode(<<One, n>>), n } : n \in Leaves }
S(k) == [k |-> "s", s |-> k, i |-> 0]
I(i) == [k |-> "i", s |-> <<>>, i |-> i]
GPaths == { <<S(a)>>, <<S(<<65>>)>>, <<S(b)>>, <<I(0)>>, <<I(1)>>, <<I(-1)>>, <<I(-2)>>, <<I(2)>>,
            <<S(a), S(a)>>, <<S(a), I(0)>>, <<I(0), S(a)>>, <<I(0), I(-1)>> }
CPaths == { <<>>, <<S(a)>>, <<I(0)>>, <<I(-1)>> }

(* ------------------------------- behaviour ----------------------------- *)
Out == [kind |-> IF kind = "num" THEN "cmp" ELSE kind, a |-> x', b |-> y', p |-> p']
Nothing == NullNode
Init == /\ stage = 1 /\ kind \in Kinds
        /\ y = Nothing /\ p = <<>>
        /\ \/ kind = "num" /\ x \in {NumNode(m.s) : m \in Lits} \cup {NumNode(m) : m \in Odd3}
           \/ kind \in {"cmp", "cnt"} /\ x \in Trees
           \/ kind = "get" /\ x \in GDocs
Pick == \/ kind = "num" /\ y' \in {NumNode(m.s) : m \in Lits} \cup {NumNode(m) : m \in Odd3} /\ p' = p
        \/ kind = "cmp" /\ y' \in Trees /\ p' = p
        \/ kind = "cnt" /\ y' \in Trees /\ p' = <<>>
        \/ kind = "cnt" /\ y' \in Scalars \cup {ArrNode(<<>>), ArrNode(<<One>>), ObjNode(<<a>>, <<One>>)} /\ p' \in CPaths
        \/ kind = "get" /\ p' \in GPaths /\ y' = y
Next == /\ stage = 1 /\ stage' = 2
        /\ Pick
        /\ UNCHANGED <<kind, x>>
        /\ Emitting => PrintT("@@T " \o ToJson(Out))
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws -------------------------------- *)
Val(lit) == (CHOOSE m \in Lits : m.s = lit).v
ExactOrder == (kind = "num" /\ stage = 2) =>
    LET c == CmpLit(x.s, y.s)   d == CmpLit(y.s, x.s) IN
    IF x.s \in Odd3 \/ y.s \in Odd3
    THEN IF LitNaN \in {x.s, y.s} THEN c = 2 /\ d = 2
         ELSE c = (IF x.s = y.s THEN 0 ELSE IF x.s = LitPInf \/ y.s = LitNInf THEN 1 ELSE -1) /\ d = 0 - c
    ELSE c = Sgn(Val(x.s) - Val(y.s)) /\ d = 0 - c
Trichotomy == (kind = "num" /\ stage = 2) =>
    LET r == Comparison(x, y)   q == Comparison(y, x)   e == Bit(EqTree(x, y)) IN
    /\ LitNaN \notin {x.s, y.s} => r.lt + r.gt + e = 1 /\ r.le = 1 - r.gt /\ r.ge = 1 - r.lt
    /\ r.lt = q.gt /\ r.le = q.ge
NotNumbers == (kind = "cmp" /\ stage = 2 /\ (x.t # TNum \/ y.t # TNum)) =>
    Comparison(x, y) = [lt |-> 0, le |-> 0, gt |-> 0, ge |-> 0]
EqualLaws == (kind = "cmp" /\ stage = 2) =>
    /\ EqTree(x, x)
    /\ EqTree(x, y) = EqTree(y, x)
    /\ EqTree(x, y) => \A z \in Flats \cup Scalars : EqTree(x, z) = EqTree(y, z)      \* transitive
ContainLaws == (kind = "cnt" /\ stage = 2 /\ p = <<>>) =>
    /\ Contained(x, x)
    /\ EqTree(x, y) = (Contained(x, y) /\ Contained(y, x))
    /\ Contained(x, y) => \A z \in Flats : Contained(y, z) => Contained(x, z)
    /\ x.t # y.t => ~Contained(x, y)
(* a getter succeeds for the one JSON type it is for, and path errors do not
   depend on the getter                                                      *)
GetterLaws == (kind = "get" /\ stage = 2) =>
    LET h == Alloc(<<>>, x)   r == Resolve(h, 1, p) IN
    /\ r.c = 0 <=> r.id # 0
    /\ CResolve(h, 1, p) # {}
    /\ (r.id # 0 => CResolve(h, 1, p) = {r})
    /\ (r.id # 0 /\ h[r.id].t = TStr) => LET u == UnB64(h[r.id].s) IN u.v = "ok" => UnB64(B64(u.b)) = u
    /\ (r.id # 0 /\ NumErr(TreeOf(h, r.id)) = 4) => AsLit(TreeOf(h, r.id)) = NoLit
=============================================================================
