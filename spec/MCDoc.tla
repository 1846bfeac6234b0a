-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* Exhaustive exploration of small documents: from each initial document,   *)
(* every operation of the alphabet below in every reachable document of at  *)
(* most MaxNodes live nodes.  A state is identified (VIEW) by what can      *)
(* matter later: the tree under the root, and which objects have built      *)
(* their case index.  Each transition is printed (@@T) as the shortest      *)
(* history that reaches it, and replayed by the driver.                      *)
(*                                                                         *)
(* The case index is modelled as the library keeps it: absent until the     *)
(* first caseless access of an object, then updated by every set and delete,*)
(* dropped by UnmarshalJSON, not copied by a deep copy.  IndexExact says it *)
(* never disagrees with the keys, so that caseless lookup through it is     *)
(* CResolve, which is what the traces are judged by.                         *)
(***************************************************************************)
EXTENDS JVDoc, Json

CONSTANTS MaxNodes, Wide, Emitting

VARIABLES h, hist, idx      \* idx[id]: << >> or << set of <<folded key, key>> >>
vars == <<h, hist, idx>>

a == <<97>>   A == <<65>>   b == <<98>>
Keys == IF Wide THEN {a, A, b} ELSE {a, A}
One == NumNode(<<49>>)
S(k) == [k |-> "s", s |-> k, i |-> 0]
I(i) == [k |-> "i", s |-> <<>>, i |-> i]
Params == {S(k) : k \in Keys} \cup {I(0), I(1), I(-1)}
Paths == {<<p>> : p \in Params} \cup {<<p, q>> : p \in Params, q \in {S(a), S(A), I(0), I(-1)}}

Docs == { ObjNode(<<>>, <<>>), ArrNode(<<>>),
          ObjNode(<<a>>, <<One>>), ArrNode(<<One, NullNode>>),
          ObjNode(<<A, a>>, <<One, NullNode>>),
          ObjNode(<<a>>, <<ArrNode(<<>>)>>), ArrNode(<<ObjNode(<<A>>, <<One>>)>>) }

(* ------------------------------ case index ----------------------------- *)
Fold(k) == Lower(CodePoints(k))
FullIndex(n) == << {<<Fold(n.k[j]), n.k[j]>> : j \in 1..Len(n.k)} >>
IdxSet(x, k) == IF x = <<>> THEN x ELSE << x[1] \cup {<<Fold(k), k>>} >>
IdxDel(x, k) == IF x = <<>> THEN x ELSE << x[1] \ {<<Fold(k), k>>} >>
(* how the index of node i follows a change from n to m, key by key         *)
IdxStep(x, n, m) ==
    IF m.t # TObj THEN <<>>
    ELSE FoldLeft(LAMBDA y, k : IF IndexIn(n.k, k) = 0 THEN IdxSet(y, k) ELSE y,
                  FoldLeft(LAMBDA y, k : IF IndexIn(m.k, k) = 0 THEN IdxDel(y, k) ELSE y, x, n.k), m.k)
IdxAfter(g, replaced) ==
    [i \in 1..Len(g) |-> IF i > Len(h) \/ i = replaced THEN <<>>
                         ELSE IdxStep(idx[i], h[i], g[i])]
(* a caseless access builds the index of every object it looks into         *)
RECURSIVE Visited(_, _)
Visited(id, path) ==
    IF path = <<>> \/ h[id].t \notin {TObj, TArr} THEN {}
    ELSE LET p == Head(path) IN
         IF h[id].t = TObj /\ PStr(p)
         THEN {id} \cup UNION {Visited(h[id].e[j], Tail(path)) : j \in CaseKeys(h[id], p.s)}
         ELSE IF h[id].t = TArr /\ PInt(p) /\ PosRead(Len(h[id].e), p.i) # 0
         THEN Visited(h[id].e[PosRead(Len(h[id].e), p.i)], Tail(path)) ELSE {}

(* ------------------------------ operations ----------------------------- *)
NoChild == [id |-> 0, t |-> NoNode, shape |-> "", srcs |-> <<>>]
New(t) == [id |-> 0, t |-> t, shape |-> "", srcs |-> <<>>]
Old(i) == [id |-> i, t |-> NoNode, shape |-> "", srcs |-> <<>>]
Copy(i) == [id |-> -5, t |-> NoNode, shape |-> "slice", srcs |-> <<i>>]
Op(op, r, p, c, via, n, text) ==
    [op |-> op, r |-> r, p |-> p, f |-> 0, c |-> c, via |-> via, n |-> n, b |-> text]

Live == ReachFrom(h, 1)
Cyclic(id, r) == \E x \in ReachFrom(h, id) : x \in ReachFrom(h, r)    \* too cautious is fine
Children(r) == {New(One), New(ObjNode(<<>>, <<>>)), New(ArrNode(<<>>))}
               \cup {Old(i) : i \in {i \in 1..Len(h) : i \notin Live /\ ~Cyclic(i, 1)}}
               \cup {Copy(i) : i \in {i \in Live : i # 1 /\ h[i].t \in {TObj, TArr}}}
               \cup {[NoChild EXCEPT !.id = -1]}
Texts == { <<123,34,65,34,58,49,44,34,97,34,58,91,93,125>>,    \* {"A":1,"a":[]}
           <<91,49,93>>, <<91>> }

TreeChild(c) == IF c.id = -5 THEN [id |-> 0, t |-> ArrNode(<<TreeOf(h, c.srcs[1])>>)] ELSE [id |-> c.id, t |-> c.t]

Record(o, g, x) ==
    /\ h' = g
    /\ idx' = x
    /\ hist' = Append(hist, o)
    /\ Emitting => PrintT("@@T " \o ToJson(Append(hist, o) \o
          << Op("cget", 1, <<S(a)>>, NoChild, "Get", 0, <<>>), Op("cget", 1, <<S(A)>>, NoChild, "Get", 0, <<>>),
             Op("mar", 1, <<>>, NoChild, "Marshal", 0, <<>>) >>))

PSeqPos(p) == \A i \in 1..Len(p) : p[i].k = "s" \/ p[i].i >= 0
Laws(op, o) ==       \* what every outcome must satisfy
    /\ ~o.ok => o.h = h
    /\ \A i \in 1..Len(h) : i # o.at => o.h[i] = h[i]                     \* C25: one node changes
    /\ HeapOK(o.h)
    /\ op.op = "set" /\ o.ok /\ PSeqPos(op.p) =>
          Resolve(o.h, op.r, op.p).id = o.ret                            \* C12: what was set is found
    /\ op.op = "set" /\ o.ok /\ Last(op.p).k = "s" /\ PSeqPos(op.p) =>     \* setting the same node again changes nothing
          SetAt(o.h, op.r, op.p, [id |-> o.ret, t |-> One]).h = o.h
    /\ op.op \in {"app", "ins"} /\ o.ok =>
          \E i \in 1..Len(o.h) : o.h[i].t = TArr /\ IndexIn(o.h[i].e, o.ret) # 0
    /\ op.op = "app" /\ o.ok =>
          LET r == Resolve(o.h, op.r, op.p).id
          IN o.h[r].e[IF op.n = 1 THEN Len(o.h[r].e) ELSE 1] = o.ret
    /\ op.op = "del" /\ o.ok => Len(o.h[o.at].e) = Len(h[o.at].e) - 1

Do(op, o, replaced) == Assert(Laws(op, o), <<"law broken", op, h, o>>) /\ Record(op, o.h, IdxAfter(o.h, replaced))

Mutations ==
    \/ \E p \in Paths, c \in Children(1) :
          LET op == Op("set", 1, p, c, "", 0, <<>>) IN Do(op, SetAt(h, 1, p, TreeChild(c)), 0)
    \/ \E p \in {<<>>} \cup {<<q>> : q \in Params}, n \in {0, 1} :
          LET op == Op("app", 1, p, New(One), "", n, <<>>) IN Do(op, AppendAt(h, 1, p, TreeChild(New(One)), n = 1), 0)
    \/ \E p \in Paths, n \in {0, 1} :
          LET op == Op("ins", 1, p, New(One), "", n, <<>>) IN Do(op, InsertIn(h, 1, p, TreeChild(New(One)), n = 1), 0)
    \/ \E p \in Paths : LET op == Op("del", 1, p, NoChild, "", 0, <<>>) IN Do(op, DeleteAt(h, 1, p), 0)
    \/ \E t \in Texts :
          LET j == Judge(t)
              op == Op("uj", 1, <<>>, NoChild, "UnmarshalJSON", 0, t)
          IN IF j.v = "acc" THEN Do(op, Become(h, 1, j.tree), 1) ELSE Do(op, Fail(h, 3), 0)

(* Caseless access may pick any key of a case class; where it has a choice the
   model follows each, the driver records which one the library took         *)
Caseless ==
    \/ \E p \in Paths :
          LET vis == Visited(1, p)
              op == Op("cget", 1, p, NoChild, "Get", 0, <<>>)
          IN Record(op, h, [i \in 1..Len(h) |-> IF i \in vis /\ idx[i] = <<>> THEN FullIndex(h[i]) ELSE idx[i]])
    \/ \E p \in Paths :
          LET vis == Visited(1, p)
              op == Op("cdel", 1, p, NoChild, "", 0, <<>>)
              built == [i \in 1..Len(h) |-> IF i \in vis /\ idx[i] = <<>> THEN FullIndex(h[i]) ELSE idx[i]]
              os == CDeleteAt(h, 1, p)
          IN Cardinality(os) = 1 /\ LET o == CHOOSE o \in os : TRUE
                IN Record(op, o.h, [i \in 1..Len(h) |-> IdxStep(built[i], h[i], o.h[i])])

Init == \E d \in Docs :
          /\ h = Alloc(<<>>, d)
          /\ hist = << Op("new", 0, <<>>, New(d), "parse", 0, <<>>) >>
          /\ idx = [i \in 1..Len(h) |-> <<>>]
Next == Mutations \/ Caseless
Spec == Init /\ [][Next]_vars

(* the tree below the root with the index state of each object and, for
   nodes reachable twice, which ones are the same                           *)
RECURSIVE Walk(_, _)
Walk(seen, todo) == IF todo = <<>> THEN seen
                    ELSE IF IndexIn(seen, Head(todo)) # 0 THEN Walk(seen, Tail(todo))
                    ELSE Walk(Append(seen, Head(todo)), h[Head(todo)].e \o Tail(todo))
Order == Walk(<<>>, <<1>>)
View == [i \in 1..Len(Order) |->
           LET n == h[Order[i]] IN <<n.t, n.k, [j \in 1..Len(n.e) |-> IndexIn(Order, n.e[j])], idx[Order[i]]>>]
Small == Cardinality(Live) <= MaxNodes /\ Len(hist) <= 6

IndexExact == \A i \in 1..Len(h) : idx[i] # <<>> => h[i].t = TObj /\ idx[i] = FullIndex(h[i])
WellFormedHeap == HeapOK(h)
EqualIsEquivalence ==
    \A i \in Live : EqTree(TreeOf(h, i), TreeOf(h, i))
    /\ \A j \in Live : EqTree(TreeOf(h, i), TreeOf(h, j)) = EqTree(TreeOf(h, j), TreeOf(h, i))
CaselessFindsExact ==     \* an exact key is found by caseless lookup too
    \A p \in Paths : LET r == Resolve(h, 1, p)
                     IN r.id # 0 => CResolve(h, 1, p) = {r}
=============================================================================
