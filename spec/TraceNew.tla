------------------------------- MODULE TraceNew -------------------------------
(***************************************************************************)
(* Validates recorded histories of constructing and changing values (driver *)
(* family "new") against JVNew.  After every event the driver lists the      *)
(* trees of all values made so far: the one just made must be what was asked *)
(* for, the one just changed what it was changed to, all others untouched.   *)
(***************************************************************************)
EXTENDS JVNew, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vs
If(c, bad) == IF c THEN {} ELSE {bad}

Others(all, i) == \A j \in 1..Len(vs) : j # i => all[j] = vs[j]

CheckMk(x) ==
    LET n == Len(vs) + 1 IN
    IF x.pan = 1 THEN {<<"C30", "panic">>}
    ELSE If(x.ret = n, <<"C30", "not a new value">>)
         \cup If(x.ret # n \/ Built(x.via, x.m, x.all[n]), <<"C30", "constructor " \o x.via>>)
         \cup If(Others(x.all, n), <<"C30", "another value changed">>)
         \cup If(x.same = 1, <<"C30", "the argument was changed">>)
CheckChg(x) ==      \* x.t is what value x.i was made to be
    IF x.pan = 1 THEN {<<"C30", "panic">>}
    ELSE If(x.all[x.i] = x.t, <<"C30", "the change did not take place">>)
         \cup If(Others(x.all, x.i), <<"C30", "another value changed">>)
CheckClob(x) == If(x.pan = 0 /\ x.all = vs, <<"C30", "a value depends on its argument">>)
CheckStr(x) ==
    IF x.pan = 1 THEN {<<"C30", "panic">>}
    ELSE If(Describes(x.t, x.s), <<"C30", "String">>)
         \cup If(x.name = TypeName(x.t.t), <<"C30", "name of the type">>)
         \cup If(x.same = 1, <<"C30", "describing changed the value">>)

Bad(x) == CASE x.op = "mk" -> CheckMk(x)
            [] x.op = "chg" -> CheckChg(x)
            [] x.op = "clob" -> CheckClob(x)
            [] x.op = "str" -> CheckStr(x)
            [] OTHER -> {<<"TOOL", "unknown line">>}

Init == l = 1 /\ vs = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET x == Trace[l] IN
           IF x.op = "reset" THEN vs' = <<>>
           ELSE /\ vs' = IF x.op = "str" THEN vs ELSE x.all
                /\ LET b == Bad(x) IN b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Spec == Init /\ [][Next]_<<l, vs>>
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
