--------------------------------- MODULE MCNew ---------------------------------
(***************************************************************************)
(* Bounded histories of constructors: build a value, change it in place,     *)
(* build another one (often by the same call).  Every history is printed     *)
(* (@@T) and replayed.  Values live in vs; constructing appends one, changing *)
(* replaces one: the frame conditions are the property.                      *)
(***************************************************************************)
EXTENDS JVNew, Json

CONSTANTS Deep, Emitting

VARIABLES vs, hist
vars == <<vs, hist>>

a == <<97>>   A == <<65>>
Arg(g, s) == [g |-> g, s |-> s, w |-> <<>>, f |-> <<>>]
Half == [g |-> "float", s |-> <<48, 46, 53>>, w |-> <<>>,
         f |-> <<[ff |-> 1, lo |-> <<48, 46, 52>>, hi |-> <<48, 46, 54>>, ev |-> 0, neg |-> 0]>>]
Args == { Arg("nil", <<>>), Arg("bool", <<0>>), Arg("bool", <<1>>), Arg("int", <<55>>), Arg("int", <<45, 49>>),
          Arg("string", <<>>), Arg("string", <<55>>), Half, Arg("other", <<>>) }
        \cup (IF Deep THEN { Arg("int", <<48>>), Arg("string", <<34, 195, 169>>), Arg("int", <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>) } ELSE {})
Mem(k, x) == [k |-> k, a |-> x]
Ms == {<<>>} \cup { <<Mem(k, x)>> : k \in {a, A, <<>>}, x \in Args }
      \cup { <<Mem(a, x), Mem(A, y)>> : x \in Args, y \in Args }
Call(via, m) == [via |-> via, m |-> m]
Objects == { Call("NewObject", m) : m \in Ms }
Scalars == { Call("New", <<Mem(<<>>, x)>>) : x \in Args }
           \cup { Call("NewNull", <<Mem(<<>>, Arg("nil", <<>>))>>), Call("NewArray", <<Mem(<<>>, Arg("array", <<>>))>>),
                  Call("NewBool", <<Mem(<<>>, Arg("bool", <<0>>))>>), Call("NewBool", <<Mem(<<>>, Arg("bool", <<1>>))>>),
                  Call("NewString", <<Mem(<<>>, Arg("string", <<>>))>>), Call("NewString", <<Mem(<<>>, Arg("string", <<97, 10>>))>>),
                  Call("NewBytes", <<Mem(<<>>, Arg("bytes", <<>>))>>), Call("NewBytes", <<Mem(<<>>, Arg("bytes", <<0, 255, 7, 8>>))>>),
                  Call("NewInt", <<Mem(<<>>, Arg("int", <<55>>))>>), Call("NewInt", <<Mem(<<>>, Arg("int", <<48>>))>>),
                  Call("NewUint", <<Mem(<<>>, Arg("int", <<50, 48>>))>>), Call("NewFloat64", <<Mem(<<>>, Half)>>) }
Calls == Objects \cup Scalars
Small == { c \in Calls : c.via # "NewObject" \/ Len(c.m) < 2 }

Canon(x) ==
    CASE x.g = "nil" -> NullNode [] x.g = "bool" -> BoolNode(x.s[1])
      [] x.g = "string" -> StrNode(x.s) [] x.g = "bytes" -> StrNode(B64(x.s))
      [] x.g \in {"int", "float"} -> NumNode(x.s)
      [] x.g = "array" -> ArrNode(<<>>) [] x.g = "object" -> ObjNode(<<>>, <<>>)
      [] OTHER -> NoNode
Result(c) == IF c.via # "NewObject" THEN Canon(c.m[1].a)
             ELSE LET ms == Kept(c.m) IN ObjNode([i \in 1..Len(ms) |-> ms[i].k], [i \in 1..Len(ms) |-> Canon(ms[i].a)])
News == { NullNode, StrNode(<<122>>), ArrNode(<<NumNode(<<57>>)>>), ObjNode(<<a>>, <<BoolNode(1)>>) }

Init == vs = <<>> /\ hist = <<>>
Mk(c) == vs' = Append(vs, Result(c)) /\ hist' = Append(hist, [op |-> "mk", via |-> c.via, m |-> c.m, i |-> 0, t |-> NullNode])
Chg(i, t) == vs[i].t # TNot /\ vs' = [vs EXCEPT ![i] = t] /\ hist' = Append(hist, [op |-> "chg", via |-> "", m |-> <<>>, i |-> i, t |-> t])
Next == /\ CASE Len(hist) = 0 -> \E c \in Calls : Mk(c)
             [] Len(hist) = 1 -> IF vs[1].t = TNot THEN FALSE ELSE \E t \in News : Chg(1, t)
             [] Len(hist) = 2 -> \/ Mk([via |-> hist[1].via, m |-> hist[1].m])
                                 \/ \E c \in Small : Mk(c)
             [] OTHER -> FALSE
        /\ (Emitting /\ Len(hist') = 3) => PrintT("@@T " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* the judgement accepts exactly the right results                           *)
Judges == Len(hist) = 1 =>
    LET c == hist[1] IN
    /\ Built(c.via, c.m, vs[1])
    /\ (c.via = "NewObject" /\ Len(vs[1].k) = 2) => Built(c.via, c.m, ObjNode(<<vs[1].k[2], vs[1].k[1]>>, <<vs[1].e[2], vs[1].e[1]>>))
    /\ \A d \in Small : Result(d) # vs[1] /\ ~(c.via = "NewObject" /\ d.via = "NewObject" /\ Kept(c.m) = Kept(d.m))
          => ~Built(c.via, c.m, Result(d))
RECURSIVE Joined(_, _)
Joined(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF i > 1 THEN Comma ELSE <<>>) \o ps[i] \o Joined(ps, i + 1)
RECURSIVE Desc(_)
Desc(t) == CASE t.t = TArr -> <<91>> \o Joined([i \in 1..Len(t.e) |-> Desc(t.e[i])], 1) \o <<93>>
             [] t.t = TObj -> <<123>> \o Joined([i \in 1..Len(t.e) |-> t.k[i] \o Colon \o Desc(t.e[i])], 1) \o <<125>>
             [] OTHER -> Described(t)
Describing == \A i \in 1..Len(vs) :
    LET t == vs[i] IN
    /\ Describes(t, Desc(t))
    /\ Describes(ArrNode(<<t, t>>), Desc(ArrNode(<<t, t>>))) /\ ~Describes(ArrNode(<<t, t>>), Desc(ArrNode(<<t>>)))
    /\ (t.t = TObj /\ Len(t.k) = 2) => Describes(t, Desc(ObjNode(<<t.k[2], t.k[1]>>, <<t.e[2], t.e[1]>>)))
    /\ ~Describes(t, Desc(t) \o <<32>>)
Untouched == [][\A i \in 1..Len(vs) : vs'[i] = vs[i] \/ hist'[Len(hist')].i = i]_vars
=============================================================================
