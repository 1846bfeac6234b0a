-------------------------------- MODULE JVDoc --------------------------------
(***************************************************************************)
(* Documents as a heap of nodes with identity.                             *)
(*                                                                         *)
(* A heap is a sequence; position = node id; heap[id] is a record           *)
(*   [t |-> type, s |-> text, k |-> keys, e |-> ids of the children]        *)
(* with object keys listed in the order in which each was last set.         *)
(* Every library call is an operator from a heap to an outcome              *)
(*   [ok, h (heap after), ret (id returned, 0 = NotExist), c (error class), *)
(*    at (the one existing node that changes, 0 if none)].                  *)
(* Nodes created by a call get the next ids: auto-created containers from   *)
(* the top down, then the new value breadth first.                          *)
(*                                                                         *)
(* A path is a sequence of [k |-> "s" | "i" | "b", s |-> key, i |-> index]; *)
(* "b" stands for a parameter of a wrong type.                              *)
(* Error classes: 0 none, 1 ErrNotFound, 2 ErrOutOfRange, 3 another error.  *)
(***************************************************************************)
EXTENDS JVText

RECURSIVE TreeOf(_, _)
TreeOf(h, id) == LET n == h[id]
                 IN Node(n.t, n.s, n.k, [i \in 1..Len(n.e) |-> TreeOf(h, n.e[i])])

RECURSIVE AllocQ(_, _, _)
AllocQ(h, q, i) ==
    IF i > Len(q) THEN h
    ELSE LET n == q[i]
             base == Len(h) + (Len(q) - i + 1)
         IN AllocQ(Append(h, Node(n.t, n.s, n.k, [j \in 1..Len(n.e) |-> base + j])),
                   q \o n.e, i + 1)
(* The heap with a tree added; its root is node Len(h) + 1                  *)
Alloc(h, tree) == AllocQ(h, <<tree>>, 1)

RECURSIVE Reach(_, _, _)
Reach(h, todo, seen) ==
    IF todo = {} THEN seen
    ELSE LET next == UNION {{h[i].e[j] : j \in 1..Len(h[i].e)} : i \in todo} \ (seen \cup todo)
         IN Reach(h, next, seen \cup todo)
ReachFrom(h, id) == Reach(h, {id}, {})

PStr(p) == p.k = "s"
PInt(p) == p.k = "i"
PosRead(len, i) == IF i >= 0 /\ i < len THEN i + 1
                   ELSE IF i < 0 /\ i >= 0 - len THEN len + i + 1 ELSE 0

(* ------------------------------ reading -------------------------------- *)
RECURSIVE Resolve(_, _, _)
Resolve(h, id, path) ==
    IF path = <<>> THEN [id |-> id, c |-> 0]
    ELSE LET n == h[id]
             p == Head(path)
         IN IF n.t = TObj
            THEN IF ~PStr(p) THEN [id |-> 0, c |-> 3]
                 ELSE LET j == IndexIn(n.k, p.s)
                      IN IF j = 0 THEN [id |-> 0, c |-> 1] ELSE Resolve(h, n.e[j], Tail(path))
            ELSE IF n.t = TArr
            THEN IF ~PInt(p) THEN [id |-> 0, c |-> 3]
                 ELSE LET j == PosRead(Len(n.e), p.i)
                      IN IF j = 0 THEN [id |-> 0, c |-> 2] ELSE Resolve(h, n.e[j], Tail(path))
            ELSE [id |-> 0, c |-> 3]

SameFold(a, b) == a = b \/ (ValidUtf8(a) /\ ValidUtf8(b) /\ Lower(CodePoints(a)) = Lower(CodePoints(b)))
(* The keys a caseless lookup may pick                                      *)
CaseKeys(n, key) == IF IndexIn(n.k, key) # 0 THEN {IndexIn(n.k, key)}
                    ELSE {j \in 1..Len(n.k) : SameFold(n.k[j], key)}
RECURSIVE CResolve(_, _, _)
CResolve(h, id, path) ==      \* the set of possible results
    IF path = <<>> THEN {[id |-> id, c |-> 0]}
    ELSE LET n == h[id]
             p == Head(path)
         IN IF n.t = TObj
            THEN IF ~PStr(p) THEN {[id |-> 0, c |-> 3]}
                 ELSE LET js == CaseKeys(n, p.s)
                      IN IF js = {} THEN {[id |-> 0, c |-> 1]}
                         ELSE UNION {CResolve(h, n.e[j], Tail(path)) : j \in js}
            ELSE IF n.t = TArr
            THEN IF ~PInt(p) THEN {[id |-> 0, c |-> 3]}
                 ELSE LET j == PosRead(Len(n.e), p.i)
                      IN IF j = 0 THEN {[id |-> 0, c |-> 2]} ELSE CResolve(h, n.e[j], Tail(path))
            ELSE {[id |-> 0, c |-> 3]}

(* ------------------------------ writing -------------------------------- *)
(* A child is an existing node, [id |-> n], or a new value, [id |-> 0, t |-> tree];
   id -1 stands for children every mutation must refuse.                    *)
Refused(child) == child.id < 0
Fail(h, c) == [ok |-> FALSE, h |-> h, ret |-> 0, c |-> c, at |-> 0]

PutKey(n, key, id) ==
    LET j == IndexIn(n.k, key)
    IN IF j = 0 THEN [n EXCEPT !.k = Append(n.k, key), !.e = Append(n.e, id)]
       ELSE [n EXCEPT !.k = Append(Without(n.k, j), key), !.e = Append(Without(n.e, j), id)]

(* Where a Set ends up: an existing container `at`, what to do there, and the
   parameters below it for which containers have to be created              *)
ChainOK(rest) == \A i \in 1..Len(rest) : PStr(rest[i]) \/ (PInt(rest[i]) /\ rest[i].i = 0)
RECURSIVE Plan(_, _, _)
Plan(h, id, path) ==
    LET n == h[id]
        p == Head(path)
        rest == Tail(path)
        no == [ok |-> FALSE, at |-> 0, p |-> p, pos |-> 0, rest |-> rest]
        yes(pos) == [ok |-> TRUE, at |-> id, p |-> p, pos |-> pos, rest |-> rest]
    IN IF n.t = TObj
       THEN IF ~PStr(p) THEN no
            ELSE LET j == IndexIn(n.k, p.s)
                 IN IF rest = <<>> THEN yes(0)
                    ELSE IF j # 0 THEN Plan(h, n.e[j], rest)
                    ELSE IF ChainOK(rest) THEN yes(0) ELSE no
       ELSE IF n.t = TArr
       THEN IF ~PInt(p) THEN no
            ELSE LET j == PosRead(Len(n.e), p.i)
                 IN IF rest = <<>> THEN (IF j # 0 THEN yes(j) ELSE IF p.i = Len(n.e) THEN yes(j) ELSE no)
                    ELSE IF j # 0 THEN Plan(h, n.e[j], rest)
                    ELSE IF p.i = Len(n.e) /\ ChainOK(rest) THEN yes(0) ELSE no
       ELSE no

Attach(n, p, pos, id) == IF n.t = TObj THEN PutKey(n, p.s, id)
                         ELSE IF pos = 0 THEN [n EXCEPT !.e = Append(n.e, id)]
                         ELSE [n EXCEPT !.e[pos] = id]

AddChild(h, child) == IF child.id > 0 THEN h ELSE Alloc(h, child.t)

(* Fresh containers for rest, one per parameter, the last one holding id     *)
Chain(n0, rest, id) ==
    [j \in 1..Len(rest) |->
        LET below == IF j = Len(rest) THEN id ELSE n0 + j + 1
        IN IF PStr(rest[j]) THEN ObjNode(<<rest[j].s>>, <<below>>) ELSE ArrNode(<<below>>)]

SetAt(h, id, path, child) ==
    IF Refused(child) \/ path = <<>> THEN Fail(h, 3)
    ELSE LET g == Plan(h, id, path)
             m == Len(g.rest)
             cid == IF child.id > 0 THEN child.id ELSE Len(h) + m + 1
             top == IF m = 0 THEN cid ELSE Len(h) + 1
         IN IF ~g.ok THEN Fail(h, 3)
            ELSE [ok |-> TRUE, ret |-> cid, c |-> 0, at |-> g.at,
                  h |-> AddChild([h EXCEPT ![g.at] = Attach(h[g.at], g.p, g.pos, top)]
                                 \o Chain(Len(h), g.rest, cid), child)]

PutElem(h, id, pos, child) ==
    LET cid == IF child.id > 0 THEN child.id ELSE Len(h) + 1
    IN [ok |-> TRUE, ret |-> cid, c |-> 0, at |-> id,
        h |-> AddChild([h EXCEPT ![id].e = InsertSeq(h[id].e, pos, cid)], child)]

AppendAt(h, id, path, child, atEnd) ==
    IF Refused(child) THEN Fail(h, 3)
    ELSE LET r == Resolve(h, id, path)
         IN IF r.id # 0
            THEN IF h[r.id].t # TArr THEN Fail(h, 3)
                 ELSE PutElem(h, r.id, IF atEnd THEN Len(h[r.id].e) + 1 ELSE 1, child)
            ELSE IF r.c # 1 THEN Fail(h, r.c)
            ELSE LET s == SetAt(h, id, path, [id |-> 0, t |-> ArrNode(<<>>)])
                 IN IF ~s.ok THEN Fail(h, 3)
                    ELSE [PutElem(s.h, s.ret, 1, child) EXCEPT !.at = s.at]

InsertIn(h, id, path, child, after) ==
    IF Refused(child) \/ path = <<>> THEN Fail(h, 3)
    ELSE LET r == Resolve(h, id, SubSeq(path, 1, Len(path) - 1))
             p == path[Len(path)]
         IN IF r.id = 0 THEN Fail(h, r.c)
            ELSE IF h[r.id].t # TArr \/ ~PInt(p) THEN Fail(h, 3)
            ELSE LET j == PosRead(Len(h[r.id].e), p.i)
                 IN IF j = 0 THEN Fail(h, 2)
                    ELSE PutElem(h, r.id, IF after THEN j + 1 ELSE j, child)

DropAt(h, id, j) == [h EXCEPT ![id].k = IF h[id].t = TObj THEN Without(h[id].k, j) ELSE <<>>,
                                ![id].e = Without(h[id].e, j)]
Removed(h, id, j) == [ok |-> TRUE, h |-> DropAt(h, id, j), ret |-> 0, c |-> 0, at |-> id]

(* Deleting from the container a path prefix leads to; j ranges over keys   *)
DelIn(h, id, p, js) ==      \* js: the object entries p may stand for
    IF h[id].t = TObj
    THEN IF ~PStr(p) THEN {Fail(h, 3)}
         ELSE IF js = {} THEN {Fail(h, 1)}
         ELSE {Removed(h, id, j) : j \in js}
    ELSE IF h[id].t = TArr
    THEN IF ~PInt(p) THEN {Fail(h, 3)}
         ELSE LET j == PosRead(Len(h[id].e), p.i)
              IN IF j = 0 THEN {Fail(h, 2)} ELSE {Removed(h, id, j)}
    ELSE {Fail(h, 3)}
DeleteAt(h, id, path) ==
    IF path = <<>> THEN Fail(h, 3)
    ELSE LET r == Resolve(h, id, SubSeq(path, 1, Len(path) - 1))
             p == path[Len(path)]
         IN IF r.id = 0 THEN Fail(h, r.c)
            ELSE CHOOSE o \in DelIn(h, r.id, p,
                      IF h[r.id].t = TObj /\ PStr(p) /\ IndexIn(h[r.id].k, p.s) # 0
                      THEN {IndexIn(h[r.id].k, p.s)} ELSE {}) : TRUE
(* all outcomes a caseless delete may have                                  *)
CDeleteAt(h, id, path) ==
    IF path = <<>> THEN {Fail(h, 3)}
    ELSE LET p == path[Len(path)]
         IN UNION {IF r.id = 0 THEN {Fail(h, r.c)}
                   ELSE DelIn(h, r.id, p, IF h[r.id].t = TObj /\ PStr(p) THEN CaseKeys(h[r.id], p.s) ELSE {})
                   : r \in CResolve(h, id, SubSeq(path, 1, Len(path) - 1))}

(* UnmarshalJSON: node id becomes the value of a text                       *)
Become(h, id, tree) ==
    LET g == Alloc(h, tree)          \* root at Len(h)+1, children after it
        root == g[Len(h) + 1]
        n == Len(h)
        shift == [j \in 1..(Len(g) - n - 1) |->
                    [g[n + 1 + j] EXCEPT !.e = [q \in 1..Len(g[n + 1 + j].e) |-> g[n + 1 + j].e[q] - 1]]]
    IN [ok |-> TRUE, ret |-> 0, c |-> 0, at |-> id,
        h |-> [h EXCEPT ![id] = [root EXCEPT !.e = [q \in 1..Len(root.e) |-> root.e[q] - 1]]] \o shift]

(* ------------------------------ equality ------------------------------- *)
RECURSIVE EqTree(_, _)
EqTree(a, b) ==
    /\ a.t = b.t /\ a.t # TNot
    /\ CASE a.t \in {TStr, TBool} -> a.s = b.s
         [] a.t = TNum -> NumEqual(a.s, b.s)
         [] a.t = TNull -> TRUE
         [] a.t = TArr -> Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : EqTree(a.e[i], b.e[i])
         [] OTHER -> Len(a.k) = Len(b.k)
                     /\ \A i \in 1..Len(a.k) :
                           LET j == IndexIn(b.k, a.k[i]) IN j # 0 /\ EqTree(a.e[i], b.e[j])
(* the same data spelled the same way, object order aside                   *)
RECURSIVE SameData(_, _)
SameData(a, b) ==
    /\ a.t = b.t /\ a.s = b.s /\ Len(a.e) = Len(b.e) /\ Len(a.k) = Len(b.k)
    /\ IF a.t = TObj
       THEN \A i \in 1..Len(a.k) :
               LET j == IndexIn(b.k, a.k[i]) IN j # 0 /\ SameData(a.e[i], b.e[j])
       ELSE \A i \in 1..Len(a.e) : SameData(a.e[i], b.e[i])

(* Well-formed heaps: distinct keys, children that exist, no cycle          *)
HeapOK(h) == \A i \in 1..Len(h) :
    /\ \A j \in 1..Len(h[i].e) : h[i].e[j] \in 1..Len(h) /\ i \notin ReachFrom(h, h[i].e[j])
    /\ h[i].t = TObj => Len(h[i].k) = Len(h[i].e) /\ Cardinality({h[i].k[j] : j \in 1..Len(h[i].k)}) = Len(h[i].k)
    /\ h[i].t # TObj => h[i].k = <<>>
    /\ h[i].t \notin {TObj, TArr} => h[i].e = <<>>
=============================================================================
