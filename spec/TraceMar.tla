------------------------------- MODULE TraceMar -------------------------------
(***************************************************************************)
(* Validates recorded marshaling sessions (driver family "mar") against     *)
(* JVMarshal.  The only state is the default options in force.              *)
(***************************************************************************)
EXTENDS JVMarshal, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, def

If(c, bad) == IF c THEN {} ELSE {bad}

(* the node a key path leads to                                             *)
RECURSIVE Follow(_, _)
Follow(n, path) ==
    IF path = <<>> THEN n
    ELSE LET p == Head(path) IN
         IF p.k = "s" /\ n.t = TObj /\ IndexIn(n.k, p.s) # 0 THEN Follow(n.e[IndexIn(n.k, p.s)], Tail(path))
         ELSE IF p.k = "i" /\ n.t = TArr /\ p.i >= 0 /\ p.i < Len(n.e) THEN Follow(n.e[p.i + 1], Tail(path))
         ELSE NoNode
RECURSIVE HasEmptyKey(_)
HasEmptyKey(n) == IndexIn(n.k, <<>>) # 0 \/ \E i \in 1..Len(n.e) : HasEmptyKey(n.e[i])

(* one call of a less function: path, keys, values                          *)
CallOK(tree, c) ==
    LET o == Follow(tree, c.p)
        a == IndexIn(o.k, c.k1)
        b == IndexIn(o.k, c.k2)
    IN o.t = TObj /\ a # 0 /\ b # 0 /\ o.e[a] = c.v1 /\ o.e[b] = c.v2

Interesting(x) == def # <<>> \/ Len(x.opts) >= 2 \/ x.rep = 1
CheckMar(x) ==
    LET S == Settings(def, IF x.via \in {"MarshalJSON", "MarshalBinary"} THEN <<>> ELSE x.opts)
        must == x.via \in {"MustMarshal", "MustMarshalString"}
        err == IF must THEN (IF x.out = <<>> THEN 1 ELSE 0) ELSE x.e
        bad == OutputProblems(S, x.tree, err, x.out)
    IN IF x.pan = 1 THEN {<<"C04", "panic">>, <<"C09", "panic">>}
                         \cup (IF S.ord.k = "less" THEN {<<"C06", "panic">>} ELSE {})
                         \cup (IF HasNonFinite(x.tree) THEN {<<"C08", "panic">>} ELSE {})
                         \cup (IF S.ind.on \/ S.omit THEN {<<"C07", "panic">>} ELSE {})
                         \cup {<<"C05", "panic">>}
       ELSE bad
            \cup (IF bad # {} /\ Interesting(x) THEN {<<"C09", "not the effect of defaults plus call options">>} ELSE {})
            \cup (IF bad # {} /\ x.via # "Marshal" THEN {<<"C29", "variant differs from Marshal">>} ELSE {})
            \cup (IF bad # {} /\ x.via \in {"MarshalJSON", "MarshalBinary"} THEN {<<"C23", "marshaler hook">>} ELSE {})
            \cup (IF x.less # <<>> /\ S.ord.k = "less" /\ ~HasEmptyKey(x.tree)
                  THEN If(\A i \in 1..Len(x.less) : CallOK(x.tree, x.less[i]), <<"C06", "arguments of the less function">>) ELSE {})
            \cup (IF \A i \in 1..Len(x.less) : S.ord = LessOrder(x.less[i].i) THEN {}
                  ELSE {<<"C09", "a replaced less function was called">>, <<"C06", "a replaced less function was called">>})
            \* the value is read back, unless members were dropped or NaN converted
            \cup If(x.rt = 1 \/ HasNonFinite(x.tree) \/ S.omit \/ err # 0 \/ x.tree.t = TNot \/ ~Mended(x.tree), <<"C04", "output does not parse back to an equal value">>)
            \* marshaling changes nothing
            \cup If(x.same = 1, <<"C04", "marshaling changed the value">>)

Init == l = 1 /\ def = <<>>
Report(b) == b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET x == Trace[l] IN
       CASE x.op = "reset" -> def' = <<>>
         [] x.op = "def" -> def' = x.opts
         [] x.op = "mar" -> def' = def /\ Report(CheckMar(x))
         [] OTHER -> def' = def /\ Report({<<"TOOL", "unknown line">>})
Spec == Init /\ [][Next]_<<l, def>>
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
