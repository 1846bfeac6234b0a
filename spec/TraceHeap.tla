------------------------------ MODULE TraceHeap ------------------------------
(***************************************************************************)
(* Validates recorded histories of document operations (driver family       *)
(* "heap") against JVDoc.  The heap is predicted by the specification; on   *)
(* every line with sc = 1 the driver lists, in d, every node that differs   *)
(* from the last listing (all nodes ever seen, detached ones included), and  *)
(* the prediction must match exactly, identities and key order included.    *)
(***************************************************************************)
EXTENDS JVValues, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          h,      \* predicted heap
          hs,     \* heap at the last listing
          cp,     \* nodes that are part of a deep copy or of its source
          ops     \* operations since the last listing
vars == <<l, h, hs, cp, ops>>

If(c, bad) == IF c THEN {} ELSE {bad}
(* d is in the order of ids; nodes never listed before are at its end       *)
AppliedTo(base, d, n) ==
    LET old == Len(d) - (n - Len(base))
    IN IF old < 0 \/ (n > Len(base) /\ d[Len(d)].id # n) THEN base      \* the listing broke off
       ELSE
       [i \in 1..n |-> IF i > Len(base) THEN d[i - Len(base) + old].n
                       ELSE IF \E q \in 1..old : d[q].id = i
                       THEN LET q == CHOOSE q \in 1..old : d[q].id = i IN d[q].n
                       ELSE base[i]]

Mutation == {"set", "app", "ins", "del", "cdel", "sort", "uj"}
PropOf(op) == CASE op = "get" -> {"C10"} [] op = "cget" -> {"C16"}
                [] op = "set" -> {"C12"} [] op \in {"app", "ins"} -> {"C14"}
                [] op = "del" -> {"C15"} [] op = "cdel" -> {"C16"}
                [] op = "iter" -> {"C18"} [] op = "sort" -> {"C19"}
                [] op = "uj" -> {"C23"} [] op = "imp" -> {"C24"}
                [] op = "new" -> {"C01", "C24"} [] op = "mar" -> {"C24"}
                [] op = "clob" -> {"C24"} [] op = "eq" -> {"C20"}
                [] op = "byt" -> {"C11", "C24"}
                [] op = "exp" -> {"C23"} [] OTHER -> {"TOOL"}
All(ps, what) == {<<p, what>> : p \in ps}
(* typed, Must and At().Set() spellings                                     *)
Variant(x) == x.via \notin {"", "Set", "Append", "Insert", "Get", "Delete"}

(* --------------------------- predicted outcomes ------------------------ *)
Shape(x) ==       \* a Go value around existing nodes: the tree of its copy
    LET ts == [i \in 1..Len(x.srcs) |-> TreeOf(h, x.srcs[i])]
        one == NumNode(<<49>>)
    IN CASE x.shape = "v" -> ts[1]
         [] x.shape = "slice" -> ArrNode(ts)
         [] x.shape = "any" -> ArrNode(<<one>> \o ts)
         [] x.shape = "map" -> ObjNode(<< <<107>> >>, <<ts[1]>>)
         [] x.shape = "struct" -> ObjNode(<< <<97>>, <<98>> >>, <<one, ts[1]>>)
         [] x.shape = "embed" -> ObjNode(<< <<120>>, <<121>>, <<122>> >>, <<ts[1], one, ts[Len(ts)]>>)
Child(c) == IF c.id = -5 THEN [id |-> 0, t |-> Shape(c)] ELSE [id |-> c.id, t |-> c.t]

Outcomes(x) ==
    CASE x.op = "set" -> {SetAt(h, x.r, x.p, Child(x.c))}
      [] x.op = "app" -> {AppendAt(h, x.r, x.p, Child(x.c), x.n = 1)}
      [] x.op = "ins" -> {InsertIn(h, x.r, x.p, Child(x.c), x.n = 1)}
      [] x.op = "del" -> {DeleteAt(h, x.r, x.p)}
      [] x.op = "cdel" -> CDeleteAt(h, x.r, x.p)
      [] x.op = "get" -> LET r == Resolve(h, x.r, x.p)
                         IN {[ok |-> r.id # 0, h |-> h, ret |-> r.id, c |-> r.c, at |-> 0]}
      [] x.op = "cget" -> {[ok |-> r.id # 0, h |-> h, ret |-> r.id, c |-> r.c, at |-> 0] : r \in CResolve(h, x.r, x.p)}

(* GetArray, GetObject, GetString as Get with a type test                   *)
Want(x) == CASE x.via = "GetArray" -> TArr [] x.via = "GetObject" -> TObj [] x.via = "GetString" -> TStr [] OTHER -> 0
Typed(x, os) == IF Want(x) = 0 THEN os
                ELSE {IF o.ok /\ h[o.ret].t # Want(x) THEN Fail(h, 4) ELSE o : o \in os}

(* Does the observed result fit an outcome?  e: 0 ok, 1..4 error class, 9 the
   call reports none.  ret: id, 0 NotExist, -1 nil, -2 not given, -9 unknown *)
FitsErr(x, o) == IF x.e = 9 THEN TRUE
                 ELSE IF o.ok THEN x.e = 0
                 ELSE IF x.op \in {"get", "cget", "del", "cdel"} /\ o.c \in {1, 2, 4} THEN x.e = o.c
                 ELSE x.e # 0
FitsRet(x, o) == IF x.ret = -2 THEN (x.via = "GetString" /\ o.ok => h[o.ret].s = x.b)
                 ELSE x.ret = o.ret

SameMembers(a, b) == a.t = TObj /\ b.t = TObj /\ Len(a.k) = Len(b.k)
    /\ \A i \in 1..Len(a.k) : LET j == IndexIn(b.k, a.k[i]) IN j # 0 /\ a.e[i] = b.e[j]

(* Differences between the predicted heap p and the listed one a            *)
Diffs(x, p, a, touched) ==
    IF p = a THEN {}
    ELSE LET m == MaxI(Len(p), Len(a))
             bad == {i \in 1..m : i > Len(p) \/ i > Len(a) \/ (i <= Len(p) /\ i <= Len(a) /\ p[i] # a[i])}
             both(i) == i <= Len(p) /\ i <= Len(a)
             order == {i \in bad : both(i) /\ SameMembers(p[i], a[i])}
             rest == bad \ order
             ps == UNION {PropOf(o) : o \in ops \cup {x.op}}
             kids(g, i) == {g[i].e[q] : q \in 1..Len(g[i].e)}
             twice(g, i) == Cardinality(kids(g, i)) # Len(g[i].e)
             two == {i \in rest : both(i)}
             aliased == \/ \E i \in two : twice(a, i) /\ ~twice(p, i)
                        \/ /\ Cardinality(two) <= 60
                           /\ \E i, j \in two : i # j /\ kids(a, i) \cap kids(a, j) # {} /\ kids(p, i) \cap kids(p, j) = {}
             foreign == {i \in rest : i <= Len(hs) /\ i \notin touched}
         IN (IF order # {} THEN {<<"C17", "key order">>} \cup (IF x.op \in {"get", "cget", "iter", "mar", "eq", "exp"} THEN All(ps, "reading changed the key order") ELSE {}) ELSE {})
            \cup (IF rest # {} THEN All(ps, "document is wrong after the call") ELSE {})
            \cup (IF rest # {} /\ aliased THEN {<<"C25", "one node where there are two">>} ELSE {})
            \cup (IF rest # {} /\ Variant(x) THEN {<<"C29", "variant differs from the general form">>} ELSE {})
            \cup (IF x.e \in 1..4 /\ (\E i \in bad : i <= Len(hs)) /\ x.op \in Mutation THEN {<<"C13", "failed call changed the document">>} ELSE {})
            \cup (IF foreign # {} /\ (ops \cup {x.op}) \cap Mutation # {} THEN {<<"C25", "another node changed">>} ELSE {})
            \cup (IF foreign \cap cp # {} THEN {<<"C24", "copy and source are not independent">>} ELSE {})

(* ------------------------- reading operations -------------------------- *)
IterOK(x) ==      \* v: visited <<key, id>> or <<index, id>> pairs, n: stop after n (0: never)
    LET n == h[x.r]
        want == IF x.n = 0 THEN Len(n.e) ELSE MinI(x.n, Len(n.e))
        arr == x.via \in {"RangeArray", "IterArray", "ForRangeArr"}
        seqd == x.via = "RangeObjectsBySetSequence"
    IN IF x.via = "nil" THEN x.v = <<>>
       ELSE IF arr
       THEN IF n.t # TArr THEN x.v = <<>>
            ELSE Len(x.v) = want /\ \A i \in 1..Len(x.v) : x.v[i].i = i - 1 /\ x.v[i].id = n.e[i]
       ELSE IF n.t # TObj THEN x.v = <<>>
       ELSE /\ Len(x.v) = want
            /\ \A i \in 1..Len(x.v) : LET j == IndexIn(n.k, x.v[i].k) IN j # 0 /\ n.e[j] = x.v[i].id
            /\ Cardinality({x.v[i].k : i \in 1..Len(x.v)}) = Len(x.v)
IterOrder(x) == x.via = "RangeObjectsBySetSequence" /\ h[x.r].t = TObj
                => \A i \in 1..Len(x.v) : i <= Len(h[x.r].k) /\ x.v[i].k = h[x.r].k[i]
(* what is left of the node when the callback replaced (mut = 1, by node c.id)
   or deleted (mut = 2) each child it was given                             *)
RECURSIVE Visited(_, _, _)
Visited(n, x, i) ==
    IF i > Len(x.v) \/ x.mut = 0 THEN n
    ELSE Visited(IF x.mut = 1
                 THEN (IF n.t = TArr THEN [n EXCEPT !.e[i] = x.c.id] ELSE PutKey(n, x.v[i].k, x.c.id))
                 ELSE LET j == IndexIn(n.k, x.v[i].k) IN [n EXCEPT !.k = Without(n.k, j), !.e = Without(n.e, j)],
                 x, i + 1)
AfterIter(x) == IF x.mut # 0 /\ IterOK(x) THEN [h EXCEPT ![x.r] = Visited(h[x.r], x, 1)] ELSE h
CheckIter(x) == If(IterOK(x), <<"C18", "iteration " >>)
                \cup If(IterOrder(x), <<"C17", "RangeObjectsBySetSequence order">>)
                \cup If(x.len = Len(AfterIter(x)[x.r].e), <<"C18", "Len">>)
                \cup If(\A i \in 1..Len(x.v) : x.v[i].id # -9, <<"C25", "iteration hands out another node">>)

Output(x) ==      \* a marshaled text against the node's tree
    LET j == Judge(x.b)
        t == TreeOf(h, x.r)
    IN IF x.e # 0 THEN {<<"C04", "marshaling fails">>, <<"C25", "marshaling fails">>}
       ELSE IF j.v # "acc" \/ j.dup THEN {<<"C04", "output is not JSON">>}
       ELSE IF ~SameData(j.tree, t) THEN {<<"C04", "output denotes another tree">>, <<"C25", "output does not show the current tree">>}
                                         \cup (IF x.via \in {"json", "MarshalJSON", "MarshalBinary"} THEN {<<"C23", "marshaler hook">>} ELSE {})
       ELSE IF x.via \in {"Marshal", "MarshalString", "MustMarshal", "MustMarshalString"} THEN If(j.tree = t, <<"C17", "OptSetSequence order">>) ELSE {}

(* Bytes and GetBytes, asked twice; the first answer was overwritten between *)
CheckBytes(x) ==
    LET id == Resolve(h, x.r, x.p).id
        n == IF id = 0 THEN NoNode ELSE h[id]
        u == UnB64(n.s)
        want(b) == IF n.t # TStr \/ u.v = "bad" THEN b = <<>> ELSE u.v = "ok" => b = u.b
    IN If(want(x.b), <<"C11", "Bytes">>)
       \cup If(Len(x.v) = 1 /\ x.v[1].k = x.b, <<"C24", "bytes handed out before show in the value">>)

Less(kind, a, b) ==
    CASE kind = 1 -> a.t < b.t
      [] kind = 2 -> LexLT(a.s, b.s)
      [] kind = 3 -> LexLT(b.s, a.s)
      [] kind = 4 -> a.t < b.t \/ (a.t = b.t /\ LexLT(a.s, b.s))
      [] kind = 5 -> Len(a.e) < Len(b.e)
      [] OTHER -> FALSE
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Members(s) == {s[i] : i \in 1..Len(s)}
Rearranged(n, m) ==
    /\ Len(m) = Len(n)
    /\ Members(m) = Members(n)
    /\ Cardinality(Members(n)) = Len(n) \/ \A x \in Members(n) : Count(n, x) = Count(m, x)
SortOK(x, a) ==      \* the listed array a against the one before
    LET n == h[x.r].e
        m == a[x.r].e
    IN IF h[x.r].t # TArr \/ x.n = 0 THEN m = n
       ELSE /\ Rearranged(n, m)
            /\ \A i \in 1..(Len(m) - 1) : ~Less(x.n, h[m[i + 1]], h[m[i]])

(* ------------------------------- one line ------------------------------ *)
Buffers(x) == If(x.ob = 0, <<"C24", "a returned buffer changed">>)
              \cup If(x.ib = 0, <<"C24", "the caller's bytes were modified">>)
              \cup If(x.sn = 0, <<"C18", "a snapshot changed">>)
              \cup (IF x.pm = 0 THEN {} ELSE {<<"C24", "the caller's path was modified">>} \cup All(PropOf(x.op), "the caller's path was modified"))
Panicked(x) == IF x.pan = 0 THEN {} ELSE All(PropOf(x.op), "panic") \cup {<<"C29", "panic">>}

(* <<problems, predicted heap, touched nodes>> *)
Judged(x) ==
    CASE x.op \in {"set", "app", "ins", "del", "cdel", "get", "cget"} ->
           LET os == IF x.f = 2 THEN {Fail(h, 3)} ELSE Typed(x, Outcomes(x))
               fit == {o \in os : FitsErr(x, o) /\ FitsRet(x, o)}
               a == IF x.sc = 1 THEN AppliedTo(hs, x.d, x.nn) ELSE h
               \* a caseless delete has several outcomes: take the one observed
               fit2 == IF x.sc = 1 /\ Cardinality(fit) > 1 /\ (\E o \in fit : o.h = a) THEN {o \in fit : o.h = a} ELSE fit
           IN IF fit # {} THEN LET o == CHOOSE o \in fit2 : TRUE
                               IN << {}, o.h, {o.at} >>
              ELSE LET o == CHOOSE o \in os : TRUE
                       ps == PropOf(x.op)
                             \cup (IF ~o.ok /\ x.e = 0 /\ x.op \in Mutation THEN {"C13"} ELSE {})
                             \cup (IF x.op \in Mutation \ {"del", "cdel"} /\ (\E q \in os : FitsErr(x, q)) THEN {"C25"} ELSE {})
                             \cup (IF x.ret = -9 THEN {"C25"} ELSE {})
                             \cup (IF x.e # 0 /\ x.ret # 0 /\ x.op \in Mutation THEN {"C13"} ELSE {})
                             \cup (IF Variant(x) THEN {"C29"} ELSE {})
                   IN << All(ps, IF ~(\E q \in os : FitsErr(x, q)) THEN "wrong error or success" ELSE "wrong node returned"),
                         IF x.e \in {0, 9} THEN o.h ELSE h, {o.at} >>
      [] x.op = "new" -> IF x.e = 0 THEN << {}, Alloc(h, x.c.t), {} >>
                         ELSE << {<<"C01", "well-formed text refused">>}, h, {} >>
      [] x.op = "imp" ->
           IF x.c.id = -1
           THEN << If(x.e # 0 /\ x.ret = 0, <<"C22", "unsupported value imported">>), h, {} >>
           ELSE IF x.e \notin {0, 9} THEN << {<<"C24", "import fails">>, <<"C22", "import fails">>}, h, {} >>
           ELSE LET g == Alloc(h, Child(x.c).t)
                IN << If(x.ret = Len(h) + 1, <<"C24", "import is not a new value">>), g, {} >>
      [] x.op = "uj" ->
           LET j == Judge(x.b)
           IN IF j.v = "free"    \* not covered: take what is there
              THEN << {}, AppliedTo(hs, x.d, x.nn), 1..x.nn >>
              ELSE IF j.v = "ref" THEN << If(x.e # 0, <<"C23", "malformed text accepted">>), h, {} >>
              ELSE IF x.e # 0 THEN << {<<"C23", "well-formed text refused">>}, h, {} >>
              ELSE LET o == Become(h, x.r, j.tree) IN << {}, o.h, {x.r} >>
      [] x.op = "mar" -> << Output(x), h, {} >>
      [] x.op = "iter" -> << CheckIter(x), AfterIter(x), IF x.mut = 0 THEN {} ELSE {x.r} >>
      [] x.op = "sort" ->
           LET a == AppliedTo(hs, x.d, x.nn)
           IN IF Len(a) >= x.r /\ SortOK(x, a) THEN << {}, [h EXCEPT ![x.r] = a[x.r]], {x.r} >>
              ELSE << {<<"C19", "not a sorted permutation">>}, [h EXCEPT ![x.r] = a[x.r]], {x.r} >>
      [] x.op = "byt" -> << CheckBytes(x), h, {} >>
      [] x.op = "eq" -> << If((x.ret = 1) = EqTree(TreeOf(h, x.r), TreeOf(h, x.n)), <<"C20", "Equal">>), h, {} >>
      [] x.op = "clob" -> << {}, h, {} >>
      [] x.op = "exp" -> << {}, h, {} >>
      [] OTHER -> << {<<"TOOL", "unknown op">>}, h, {} >>

CopyIds(x, g) ==     \* nodes newly involved in copying
    IF x.op \in {"imp", "set", "app", "ins"} /\ x.c.id = -5 /\ x.e \in {0, 9}
    THEN UNION {ReachFrom(h, x.c.srcs[i]) : i \in 1..Len(x.c.srcs)} \cup (Len(h) + 1)..Len(g)
    ELSE {}

Init == l = 1 /\ h = <<>> /\ hs = <<>> /\ cp = {} /\ ops = {}
Report(b) == b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET x == Trace[l] IN
       IF x.op = "reset" THEN h' = <<>> /\ hs' = <<>> /\ cp' = {} /\ ops' = {}
       ELSE IF x.pan = 1      \* resynchronise with what is there
       THEN /\ h' = AppliedTo(hs, x.d, x.nn) /\ hs' = h' /\ ops' = {} /\ cp' = cp
            /\ Report(Panicked(x))
       ELSE LET r == Judged(x)
                c2 == cp \cup CopyIds(x, r[2])
            IN IF x.sc = 1
               THEN LET a == AppliedTo(hs, x.d, x.nn)
                    IN /\ h' = a /\ hs' = a /\ ops' = {} /\ cp' = c2
                       /\ Report(r[1] \cup Diffs(x, r[2], a, r[3]) \cup Buffers(x))
               ELSE h' = r[2] /\ hs' = hs /\ ops' = ops \cup {x.op} /\ cp' = c2 /\ Report(r[1] \cup Buffers(x))
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
