------------------------------ MODULE TracePump ------------------------------
(***************************************************************************)
(* Validates very long texts and strings (driver family "pump") against the *)
(* growth that JVPump derives from short ones.                              *)
(***************************************************************************)
EXTENDS JVPump, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
If(c, bad) == IF c THEN {} ELSE {bad}

Common(x, tree) ==
    LET S == Settings(<<>>, x.opts)
    IN IF OutputProblems(S, tree, 0, x.mk) # {} THEN OutputProblems(S, tree, 0, x.mk)
       ELSE If(x.me = 0 /\ Follows(x.mar, x.m2, x.m3, x.mk, x.n), <<"C04", "text of a long value">>)
            \cup If(x.me = 0 /\ Follows(x.mar, x.m2, x.m3, x.mk, x.n), <<"C05", "text of a long value">>)
            \cup If(x.rt = 1, <<"C04", "a long text is not read back">>)
            \cup If(x.ne = 0, <<"C20", "long values that differ are equal">>)
            \cup If(x.eq = 1, <<"C20", "a long value differs from its like">>)

CheckPump(x) ==
    LET j == Judge(Pumped(x, Few))
        t2 == Judge(Pumped(x, 2)).tree
        t3 == Judge(Pumped(x, 3)).tree
    IN IF x.pan = 1 THEN {<<c, "panic on a long text">> : c \in {"C01", "C02", "C04", "C05", "C20"}}
       ELSE IF j.v = "free" THEN {} \* a documented leniency
       ELSE IF j.v = "ref" THEN If(x.e = 1, <<"C02", "malformed long text accepted">>)
       ELSE IF x.e = 1 THEN {<<"C01", "well-formed long text refused">>}
       ELSE If(Grows(Leaf(x.ctx, t2), Leaf(x.ctx, t3), Leaf(x.ctx, j.tree)), <<"TOOL", "no steady growth">>)
            \cup If(Follows(x.leaf, Leaf(x.ctx, t2), Leaf(x.ctx, t3), Leaf(x.ctx, j.tree), x.n), <<"C01", "long string">>)
            \cup If(x.len = Len(j.tree.e) + (IF Len(t3.e) = Len(t2.e) THEN 0 ELSE x.n - Few), <<"C01", "number of children">>)
            \cup If(x.same = 1, <<"C24", "the caller's string changed">>)
            \cup Common(x, j.tree)

(* a string made by a constructor or setter                                  *)
Owner(via) == CASE via \in {"NewString", "New", "NewObject"} -> "C30"
                [] via \in {"Import", "ImportMap"} -> "C22"
                [] OTHER -> "C29"
CheckMade(x) ==
    LET s(k) == Pumped(x, k)
    IN IF x.pan = 1 THEN {<<c, "panic on a long string">> : c \in {Owner(x.via), "C04", "C05", "C20"}}
       ELSE IF x.via = "NewBytes"
       THEN If(Follows(x.leaf, B64(s(2)), B64(s(3)), B64(s(Few)), x.n), <<"C30", "long bytes">>)
            \cup If(Follows(x.back, s(2), s(3), s(Few), x.n), <<"C11", "long bytes read back">>)
       ELSE IF x.via = "Base64"
       THEN LET u == UnB64(s(Few))
            IN IF u.v = "any" THEN {}
               ELSE IF u.v = "bad" THEN If(x.back.n = 0, <<"C11", "broken Base64 of great length">>)
               ELSE If(Follows(x.back, UnB64(s(2)).b, UnB64(s(3)).b, u.b, x.n), <<"C11", "Base64 of great length">>)
       ELSE If(Follows(x.leaf, s(2), s(3), s(Few), x.n), <<Owner(x.via), "long string">>)
            \cup If(Follows(x.back, s(2), s(3), s(Few), x.n), <<"C11", "long string read back">>)
            \cup Common(x, StrNode(s(Few)))

Bad1(x) == CASE x.op = "pump" -> CheckPump(x)
             [] x.op = "made" -> CheckMade(x)
             [] OTHER -> {<<"TOOL", "unknown line">>}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET b == Bad1(Trace[l])
           IN b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Spec == Init /\ [][Next]_l
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
