------------------------------ MODULE JVImport ------------------------------
(***************************************************************************)
(* What a Go value denotes as JSON: the rules of encoding/json which Import, *)
(* New and Set follow.  A Go value is described by a record                  *)
(*    [k, s, b, ks, e, f, t]                                                 *)
(* k  "null" (no value), "bool" (b), "num" (s: decimal text, b=1: integer),  *)
(*    "str" (s), "bytes" (s, b=1: nil), "seq" (e, b=1: nil), "map" (ks, e,   *)
(*    b=1: nil), "ptr"/"iface" (e: empty if nil), "struct" (f), "jm" (s: the *)
(*    text MarshalJSON gives, b=1: it fails), "tm" (s: what MarshalText      *)
(*    gives, b=1: it fails), "jv" (t: a jsonvalue, b=1: nil pointer, b=2: not behind a pointer), "bad" *)
(*    (unsupported kind, b=1: a map with unsupported keys), "any" (outside of the specification)               *)
(* f  the fields of a struct (also of a nil pointer to an embedded one):     *)
(*    [n name, tag (the json tag), ex exported, an embedded, sk struct or    *)
(*    pointer to one, v value]                                               *)
(***************************************************************************)
EXTENDS JVValues

(* ------------------------------- json tags ------------------------------ *)
Comma == 44
Omit_  == <<111, 109, 105, 116, 101, 109, 112, 116, 121>>        \* omitempty
String_ == <<115, 116, 114, 105, 110, 103>>                      \* string
TagName(tag) == SubSeq(tag, 1, FirstOf(tag, {Comma}) - 1)
RECURSIVE TagOptions(_)
TagOptions(tag) == LET i == FirstOf(tag, {Comma}) IN
    IF i > Len(tag) THEN {}
    ELSE LET rest == SubSeq(tag, i + 1, Len(tag)) IN {TagName(rest)} \cup TagOptions(rest)
Dashed(f)   == f.tag = <<45>>
OmitEmpty(f) == Omit_ \in TagOptions(f.tag)
AsString(f) == String_ \in TagOptions(f.tag)
FieldName(f) == IF TagName(f.tag) = <<>> THEN f.n ELSE TagName(f.tag)

(* ------------------------------ struct members -------------------------- *)
Promotes(f) == f.an = 1 /\ TagName(f.tag) = <<>> /\ f.sk = 1 /\ ~Dashed(f)
Own(f) == ~Promotes(f) /\ ~Dashed(f) /\ (f.ex = 1 \/ (f.an = 1 /\ f.sk = 1))
Inner(f, static) == IF f.v.k # "ptr" THEN f.v.f
                    ELSE IF f.v.e # <<>> THEN f.v.e[1].f
                    ELSE IF static THEN f.v.f ELSE <<>>
RECURSIVE MembersOf(_, _)
MembersOf(fs, static) ==        \* the fields that count, in order, with their names
    LET own == {FieldName(fs[i]) : i \in {i \in 1..Len(fs) : Own(fs[i])}}
        part(f) == IF Promotes(f)
                   THEN SelectSeq(MembersOf(Inner(f, static), static), LAMBDA m : m.k \notin own)
                   ELSE IF Own(f) THEN << [k |-> FieldName(f), f |-> f] >> ELSE <<>>
    IN FlattenSeq([i \in 1..Len(fs) |-> part(fs[i])])
(* one name from two fields is outside of the specification                 *)
Clash(fs) == LET ms == MembersOf(fs, TRUE) IN Cardinality({ms[i].k : i \in 1..Len(ms)}) # Len(ms)

Empty(g) == CASE g.k = "bool" -> g.b = 0
              [] g.k = "num" -> Dec(g.s).d = <<>>
              [] g.k \in {"str", "bytes"} -> g.s = <<>>
              [] g.k \in {"seq", "map", "ptr", "iface"} -> g.e = <<>>
              [] g.k = "jv" -> g.b = 1
              [] OTHER -> FALSE
Kept(g, ign) == LET ms == MembersOf(g.f, FALSE)
                IN SelectSeq(ms, LAMBDA m : ign \/ ~OmitEmpty(m.f) \/ ~Empty(m.f.v))

(* the string option only concerns scalars and pointers to them              *)
Scalar(g) == g.k \in {"bool", "num", "str"}

(* ------------------------- failure and indifference --------------------- *)
RECURSIVE Errs(_, _)
Errs(g, ign) ==
    CASE g.k = "bad" -> TRUE
      [] g.k = "tm" -> g.b = 1
      [] g.k = "jm" -> g.b = 1 \/ Judge(g.s).v = "ref"
      [] g.k \in {"seq", "map", "ptr", "iface"} -> \E i \in 1..Len(g.e) : Errs(g.e[i], ign)
      [] g.k = "struct" -> LET ms == Kept(g, ign)      \* what only a clashing field does is not specified
                               all == MembersOf(g.f, TRUE)
                           IN \E i \in 1..Len(ms) : /\ Errs(ms[i].f.v, ign)
                                                     /\ Cardinality({j \in 1..Len(all) : all[j].k = ms[i].k}) = 1
      [] OTHER -> FALSE
Marshals(g) == g.k \in {"jm", "tm", "any"} \/ (g.k = "jv" /\ g.b = 2)
                 \/ (g.k \in {"ptr", "iface"} /\ \E i \in 1..Len(g.e) : g.e[i].k \in {"jm", "tm", "jv", "any"})
(* fields hidden by an outer one of their name                              *)
HiddenOf(fs) == LET own == {FieldName(fs[i]) : i \in {i \in 1..Len(fs) : Own(fs[i])}}
                IN FlattenSeq([i \in 1..Len(fs) |-> IF Promotes(fs[i]) THEN
                                   SelectSeq(MembersOf(Inner(fs[i], FALSE), FALSE), LAMBDA m : m.k \in own) ELSE <<>>])
RECURSIVE Free(_)
Free(g) ==
    CASE g.k = "any" -> TRUE
      [] g.k = "jm" -> g.b = 0 /\ Judge(g.s).v = "free"
      [] g.k \in {"seq", "map", "ptr", "iface"} -> \E i \in 1..Len(g.e) : Free(g.e[i])
      [] g.k = "struct" -> \/ Clash(g.f)
                           \/ LET hs == HiddenOf(g.f) IN \E i \in 1..Len(hs) : Free(hs[i].f.v) \/ Errs(hs[i].f.v, TRUE)
                           \/ \E i \in 1..Len(g.f) : Promotes(g.f[i]) /\ Inner(g.f[i], FALSE) # <<>> /\
                                  Free([g EXCEPT !.f = Inner(g.f[i], FALSE)])
                           \/ LET ms == MembersOf(g.f, FALSE)
                              IN \E i \in 1..Len(ms) : \/ Free(ms[i].f.v)
                                                       \/ OmitEmpty(ms[i].f) /\ (Marshals(ms[i].f.v) \/ ms[i].f.v.k = "bad")
      [] OTHER -> FALSE

(* ------------------------------- the relation --------------------------- *)
Word(b) == IF b = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
RECURSIVE Fits(_, _, _, _)
Fits(g, n, q, ign) ==       \* tree n is what g denotes (q: as a string)
    CASE g.k = "null" -> n = NullNode
      [] g.k = "bool" -> n = (IF q THEN StrNode(Word(g.b)) ELSE BoolNode(g.b))
      [] g.k = "num" -> IF ~q THEN n.t = TNum /\ NumEqual(n.s, g.s)
                        ELSE n.t = TStr /\ (IF g.b = 1 THEN n.s = g.s ELSE NumGrammar(n.s) /\ NumEqual(n.s, g.s))
      [] g.k = "str" -> IF ~q THEN n = StrNode(g.s)
                        ELSE n.t = TStr /\ LET j == Judge(n.s) IN j.v = "acc" /\ j.tree = StrNode(g.s)
      [] g.k = "bytes" -> n = StrNode(B64(g.s)) \/ (g.b = 1 /\ n = NullNode)
      [] g.k = "seq" -> \/ g.b = 1 /\ n = NullNode
                        \/ /\ n.t = TArr /\ Len(n.e) = Len(g.e)
                           /\ \A i \in 1..Len(g.e) : Fits(g.e[i], n.e[i], FALSE, ign)
      [] g.k = "map" -> IF g.b = 1 THEN n = NullNode
                        ELSE /\ n.t = TObj /\ Len(n.e) = Len(g.e)
                             /\ \A i \in 1..Len(g.e) : LET j == IndexIn(n.k, g.ks[i])
                                                       IN j # 0 /\ Fits(g.e[i], n.e[j], FALSE, ign)
      [] g.k = "ptr" -> IF g.e = <<>> THEN n = NullNode ELSE Fits(g.e[1], n, q /\ Scalar(g.e[1]), ign)
      [] g.k = "iface" -> IF g.e = <<>> THEN n = NullNode ELSE Fits(g.e[1], n, FALSE, ign)
      [] g.k = "struct" -> LET ms == Kept(g, ign) IN
                           /\ n.t = TObj
                           /\ n.k = [i \in 1..Len(ms) |-> ms[i].k]
                           /\ \A i \in 1..Len(ms) : Fits(ms[i].f.v, n.e[i], AsString(ms[i].f), ign)
      [] g.k = "jm" -> n = Judge(g.s).tree
      [] g.k = "tm" -> n = StrNode(g.s)
      [] g.k = "jv" -> IF g.b = 1 THEN n = NullNode ELSE EqTree(n, g.t)
      [] OTHER -> FALSE

(* One such tree: what encoding/json writes                                 *)
RECURSIVE Denote(_, _, _)
Denote(g, q, ign) ==
    CASE g.k = "bool" -> IF q THEN StrNode(Word(g.b)) ELSE BoolNode(g.b)
      [] g.k = "num" -> IF q THEN StrNode(g.s) ELSE NumNode(g.s)
      [] g.k = "str" -> StrNode(IF q THEN <<34>> \o g.s \o <<34>> ELSE g.s)      \* plain text only
      [] g.k = "bytes" -> IF g.b = 1 THEN NullNode ELSE StrNode(B64(g.s))
      [] g.k = "seq" -> IF g.b = 1 THEN NullNode ELSE ArrNode([i \in 1..Len(g.e) |-> Denote(g.e[i], FALSE, ign)])
      [] g.k = "map" -> IF g.b = 1 THEN NullNode ELSE ObjNode(g.ks, [i \in 1..Len(g.e) |-> Denote(g.e[i], FALSE, ign)])
      [] g.k = "ptr" -> IF g.e = <<>> THEN NullNode ELSE Denote(g.e[1], q /\ Scalar(g.e[1]), ign)
      [] g.k = "iface" -> IF g.e = <<>> THEN NullNode ELSE Denote(g.e[1], FALSE, ign)
      [] g.k = "struct" -> LET ms == Kept(g, ign) IN
                           ObjNode([i \in 1..Len(ms) |-> ms[i].k],
                                   [i \in 1..Len(ms) |-> Denote(ms[i].f.v, AsString(ms[i].f), ign)])
      [] OTHER -> NullNode
(* the same Go value, jsonvalues compared as JSON data                      *)
RECURSIVE SameGo(_, _)
SameGo(a, b) ==
    /\ a.k = b.k /\ a.s = b.s /\ a.b = b.b /\ a.ks = b.ks /\ (a.t = b.t \/ EqTree(a.t, b.t))
    /\ Len(a.e) = Len(b.e) /\ \A i \in 1..Len(a.e) : SameGo(a.e[i], b.e[i])
    /\ Len(a.f) = Len(b.f) /\ \A i \in 1..Len(a.f) : a.f[i].n = b.f[i].n /\ SameGo(a.f[i].v, b.f[i].v)
RECURSIVE HasBadMap(_)
HasBadMap(g) == (g.k = "bad" /\ g.b = 1) \/ (\E i \in 1..Len(g.e) : HasBadMap(g.e[i])) \/ (\E i \in 1..Len(g.f) : HasBadMap(g.f[i].v))
RECURSIVE HasV(_)
HasV(g) == g.k = "jv" \/ (\E i \in 1..Len(g.e) : HasV(g.e[i])) \/ (\E i \in 1..Len(g.f) : HasV(g.f[i].v))
=============================================================================
