-------------------------------- MODULE MCImp --------------------------------
(***************************************************************************)
(* All small Go values: a struct of two or three fields, the first with     *)
(* every kind of value, wrapping and tag, the second chosen for the ways     *)
(* fields interact (embedding, hiding, unexported, unsupported), imported    *)
(* with and without OptIgnoreOmitempty.  The laws are checked on the         *)
(* specification; every state is replayed into Import, New, Set, Append and  *)
(* Insert.                                                                   *)
(***************************************************************************)
EXTENDS JVImport, Json
CONSTANTS Deep, Emitting
VARIABLES stage, leaf, g, ign
vars == <<stage, leaf, g, ign>>

Go(k, s, b, ks, e, f) == [k |-> k, s |-> s, b |-> b, ks |-> ks, e |-> e, f |-> f, t |-> NoNode]
GBool(b) == Go("bool", <<>>, b, <<>>, <<>>, <<>>)
GInt(s)  == Go("num", s, 1, <<>>, <<>>, <<>>)
GFloat(s) == Go("num", s, 0, <<>>, <<>>, <<>>)
GStr(s)  == Go("str", s, 0, <<>>, <<>>, <<>>)
GBytes(s, nil) == Go("bytes", s, nil, <<>>, <<>>, <<>>)
GSeq(e)  == Go("seq", <<>>, 0, <<>>, e, <<>>)
GNilSeq  == Go("seq", <<>>, 1, <<>>, <<>>, <<>>)
GMap(ks, e) == Go("map", <<>>, 0, ks, e, <<>>)
GNilMap  == Go("map", <<>>, 1, <<>>, <<>>, <<>>)
GPtr(x)  == Go("ptr", <<>>, 0, <<>>, <<x>>, <<>>)
GNil     == Go("ptr", <<>>, 0, <<>>, <<>>, <<>>)
GNilTo(fs) == Go("ptr", <<>>, 0, <<>>, <<>>, fs)
GAny(x)  == Go("iface", <<>>, 0, <<>>, <<x>>, <<>>)
GNone    == Go("iface", <<>>, 0, <<>>, <<>>, <<>>)
GStruct(fs) == Go("struct", <<>>, 0, <<>>, <<>>, fs)
GBad     == Go("bad", <<>>, 0, <<>>, <<>>, <<>>)

a == 97  A == 65  B == 66  C == 67  x == 120  dash == 45
Field(n, tag, v) == [n |-> n, tag |-> tag, ex |-> 1, an |-> 0, sk |-> Bit(v.k = "struct"), v |-> v]
Embed(n, tag, v) == [n |-> n, tag |-> tag, ex |-> 1, an |-> 1, sk |-> 1, v |-> v]
Priv(n, v) == [n |-> n, tag |-> <<>>, ex |-> 0, an |-> 0, sk |-> 0, v |-> v]

Opt(seq) == FlattenSeq([i \in 1..Len(seq) |-> <<Comma>> \o seq[i]])
Tags == { <<>>, <<x>>, <<dash>>, <<dash, Comma>>, Opt(<<Omit_>>), Opt(<<String_>>), Opt(<<Omit_, String_>>),
          <<x>> \o Opt(<<String_, Omit_>>), <<A>> \o Opt(<<Omit_>>), <<dash>> \o Opt(<<Omit_>>) }
Leaves == { GBool(0), GBool(1), GInt(<<48>>), GInt(<<45, 55>>), GFloat(<<48>>), GFloat(<<49, 46, 53>>), GStr(<<>>), GStr(<<a>>),
            GBytes(<<>>, 1), GBytes(<<>>, 0), GBytes(<<104, 105>>, 0),
            GNilSeq, GSeq(<<>>), GNilMap, GMap(<<>>, <<>>), GNil, GNone, GStruct(<<>>), GBad }
Wraps(v) == { v, GPtr(v), GPtr(GPtr(v)), GAny(v), GAny(GPtr(v)), GPtr(GAny(v)), GSeq(<<v>>), GSeq(<<v, v>>), GMap(<<<<a>>>>, <<v>>),
              GStruct(<<Field(<<A>>, Opt(<<Omit_, String_>>), v)>>), GPtr(GStruct(<<Field(<<A>>, Opt(<<String_>>), v)>>)) }

InnerFs(v) == << Field(<<A>>, <<>>, GInt(<<51>>)), Field(<<C>>, Opt(<<Omit_>>), v), Priv(<<99>>, GInt(<<49>>)) >>
Others(v) == { <<>>,
               << Field(<<B>>, Opt(<<Omit_>>), GInt(<<48>>)) >>,
               << Priv(<<98>>, v) >>,
               << Embed(<<69>>, <<>>, GStruct(InnerFs(v))) >>,                       \* hides or not, by the name of the first
               << Embed(<<69>>, <<>>, GPtr(GStruct(InnerFs(v)))) >>,
               << Embed(<<69>>, <<>>, GNilTo(InnerFs(GInt(<<49>>)))) >>,
               << Embed(<<69>>, <<a>>, GStruct(InnerFs(v))) >>,
               << Embed(<<69>>, <<dash>>, GStruct(InnerFs(v))) >>,
               << Embed(<<69>>, Opt(<<Omit_>>), GStruct(<<Embed(<<70>>, <<>>, GStruct(InnerFs(v))), Field(<<C>>, <<>>, GBool(0))>>)) >> }

Init == stage = 1 /\ leaf \in Leaves /\ g = leaf /\ ign \in {0, 1}
Top(v, tag, more) == LET f == <<Field(<<A>>, tag, v)>> IN IF Deep THEN {GStruct(f \o more), GStruct(more \o f), GSeq(<<GStruct(more \o f)>>)}
                                                          ELSE {GStruct(f \o more)}
Next == /\ stage = 1 /\ stage' = 2
        /\ \E w \in Wraps(leaf), tag \in Tags : \E more \in Others(leaf) : g' \in Top(w, tag, more)
        /\ UNCHANGED <<leaf, ign>>
        /\ Emitting => PrintT("@@T " \o ToJson([g |-> g', ign |-> ign]))
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws -------------------------------- *)
Plain == stage = 2 /\ ~Free(g) /\ ~Errs(g, ign = 1)
Tree == Denote(g, FALSE, ign = 1)
RECURSIVE NodesOf(_)
NodesOf(n) == {n} \cup UNION {NodesOf(n.e[i]) : i \in 1..Len(n.e)}
(* the tree encoding/json writes is one the relation admits *)
Canonical == Plain => Fits(g, Tree, FALSE, ign = 1)
(* no object has a key twice *)
DistinctKeys == Plain => \A n \in NodesOf(Tree) : Cardinality({n.k[i] : i \in 1..Len(n.k)}) = Len(n.k) /\ (n.t = TObj => Len(n.k) = Len(n.e))
(* ignoring omitempty only adds members, in place *)
RECURSIVE SubMembers(_, _)
SubMembers(m, n) ==
    IF m.t = TObj /\ n.t = TObj
    THEN /\ SelectSeq(n.k, LAMBDA k : IndexIn(m.k, k) # 0) = m.k
         /\ \A i \in 1..Len(m.k) : SubMembers(m.e[i], n.e[IndexIn(n.k, m.k[i])])
    ELSE IF m.t = TArr /\ n.t = TArr /\ Len(m.e) = Len(n.e) THEN \A i \in 1..Len(m.e) : SubMembers(m.e[i], n.e[i])
    ELSE m = n
IgnoreAdds == (stage = 2 /\ ~Free(g) /\ ~Errs(g, TRUE)) => SubMembers(Denote(g, FALSE, FALSE), Denote(g, FALSE, TRUE))
(* what is left out under omitempty is empty, and nothing empty is kept *)
OmitsEmpty == stage = 2 /\ g.k = "struct" =>
    LET ms == MembersOf(g.f, FALSE)   ks == Kept(g, FALSE) IN
    \A i \in 1..Len(ms) : (\E j \in 1..Len(ks) : ks[j] = ms[i]) = (~OmitEmpty(ms[i].f) \/ ~Empty(ms[i].f.v))
(* an unsupported value is an error wherever it would be written *)
ErrsMonotone == stage = 2 => (Errs(g, FALSE) => Errs(g, TRUE))
(* a field of the struct itself hides a promoted one *)
Hides == stage = 2 /\ g.k = "struct" => ~Clash(g.f)
(* a value fits no other leaf's tree: the relation tells values apart *)
Sharp == Plain /\ ign = 0 => \A y \in {GBool(0), GInt(<<57>>), GStr(<<a, a>>)} : ~Fits(g, Denote(y, FALSE, FALSE), FALSE, FALSE)
=============================================================================
