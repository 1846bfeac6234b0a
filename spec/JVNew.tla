-------------------------------- MODULE JVNew --------------------------------
(***************************************************************************)
(* What the constructors build, and how a value describes itself.           *)
(*                                                                         *)
(* A Go argument is [g |-> kind, s |-> bytes, w |-> texts, f |-> floats]:   *)
(*   "nil", "bool" (s = <<0>> or <<1>>), "int" (s its decimal text; any      *)
(*   integer type), "string" (s), "bytes" (s), "float" (f the records of     *)
(*   the floats it is, in the sense of FloatConv), "text" (a number with one *)
(*   of the texts w), "array" and "object" (empty), "other" (anything else)  *)
(* A call is [via |-> constructor, m |-> members [k |-> key, a |-> argument]] *)
(***************************************************************************)
EXTENDS JVValues

Fits(x, t) ==
    CASE x.g = "nil" -> t = NullNode
      [] x.g = "bool" -> t = BoolNode(x.s[1])
      [] x.g = "int" -> t = NumNode(x.s)
      [] x.g = "string" -> t = StrNode(x.s)
      [] x.g = "bytes" -> t = StrNode(B64(x.s))
      [] x.g = "float" -> /\ t = NumNode(t.s)
                          /\ NonFinite(t.s) \/ NumGrammar(t.s)
                          /\ \E i \in 1..Len(x.f) : FloatConv(t.s, x.f[i])
      [] x.g = "text" -> t = NumNode(t.s) /\ \E i \in 1..Len(x.w) : t.s = x.w[i]
      [] x.g = "array" -> t = ArrNode(<<>>)
      [] x.g = "object" -> t = ObjNode(<<>>, <<>>)
      [] OTHER -> t = NoNode

(* NewObject(M): a member for every entry of a basic kind, none for others   *)
Basic(x) == x.g # "other"
Kept(m) == SelectSeq(m, LAMBDA e : Basic(e.a))
FitsObject(m, t) ==
    LET ms == Kept(m) IN
    /\ t.t = TObj /\ t.s = <<>>
    /\ Len(t.k) = Len(ms) /\ Len(t.e) = Len(ms)
    /\ \A i \in 1..Len(ms) : LET j == IndexIn(t.k, ms[i].k) IN j # 0 /\ Fits(ms[i].a, t.e[j])
Built(via, m, t) == IF via = "NewObject" THEN FitsObject(m, t) ELSE Fits(m[1].a, t)

(* --------------------------- names of the types ------------------------ *)
TypeName(t) ==
    CASE t = TStr -> <<115, 116, 114, 105, 110, 103>>
      [] t = TNum -> <<110, 117, 109, 98, 101, 114>>
      [] t = TObj -> <<111, 98, 106, 101, 99, 116>>
      [] t = TArr -> <<97, 114, 114, 97, 121>>
      [] t = TBool -> <<98, 111, 111, 108, 101, 97, 110>>
      [] t = TNull -> <<110, 117, 108, 108>>
      [] OTHER -> <<>>      \* nothing is said about the others

(* --------------------- descriptions: V.String() ------------------------ *)
(* of a container: [d, d, ...] and {k: d, k: d, ...} with the members in any
   order.  Ends(t, s, i): where a description of t starting at i may end.     *)
Word(d, s, i) == IF i + Len(d) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(d) - 1) = d THEN {i + Len(d)} ELSE {}
Comma == <<44, 32>>
Colon == <<58, 32>>
RECURSIVE Ends(_, _, _), EndsArr(_, _, _, _), EndsObj(_, _, _, _)
Ends(t, s, i) ==
    CASE t.t = TArr -> UNION {EndsArr(t, s, j, 1) : j \in Word(<<91>>, s, i)}
      [] t.t = TObj -> UNION {EndsObj(t, s, j, 1..Len(t.k)) : j \in Word(<<123>>, s, i)}
      [] OTHER -> Word(Described(t), s, i)
EndsArr(t, s, i, n) ==
    IF n > Len(t.e) THEN Word(<<93>>, s, i)
    ELSE LET at == IF n = 1 THEN {i} ELSE Word(Comma, s, i)
         IN UNION {EndsArr(t, s, j, n + 1) : j \in UNION {Ends(t.e[n], s, q) : q \in at}}
EndsObj(t, s, i, left) ==
    IF left = {} THEN Word(<<125>>, s, i)
    ELSE LET at == IF Cardinality(left) = Len(t.k) THEN {i} ELSE Word(Comma, s, i)
         IN UNION { UNION {EndsObj(t, s, j, left \ {n}) :
                           j \in UNION {Ends(t.e[n], s, q) : q \in UNION {Word(t.k[n] \o Colon, s, z) : z \in at}}}
                    : n \in left }
Describes(t, s) == (Len(s) + 1) \in Ends(t, s, 1)
=============================================================================
