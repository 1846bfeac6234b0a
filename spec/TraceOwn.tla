------------------------------- MODULE TraceOwn -------------------------------
(***************************************************************************)
(* Traces of driver family "own" against JVOwn.  After every operation the   *)
(* driver looks at every cell and says which content it finds there (-1 for  *)
(* none it knows).                                                           *)
(***************************************************************************)
EXTENDS JVOwn, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cells
vars == <<l, cells>>

Fault(op) == CASE op = "parse" -> <<"C01", "parsed content">>
               [] op \in {"raw", "txt"} -> <<"C22", "content of what a marshaler gave">>
               [] op = "into"  -> <<"C23", "decoded content">>
               [] op = "mar"   -> <<"C04", "output content">>
               [] op = "copy"  -> <<"C24", "content of a copy">>
               [] op = "exp"   -> <<"C23", "exported content">>
               [] op = "imp"   -> <<"C22", "imported content">>
               [] op = "mut"   -> <<"C12", "content after setting every leaf">>
               [] OTHER        -> <<"TOOL", "content written by the driver">>
Changed(k) == CASE k = "buf" -> "the caller's text changed"
                [] k = "val" -> "a value changed when another cell was written"
                [] k = "out" -> "output of an earlier Marshal changed"
                [] OTHER -> "an exported Go value changed"

Bad(x) ==
    IF ~Possible(cells, x) THEN {<<"TOOL", "impossible operation">>}
    ELSE LET want == After(cells, x)
             at == Target(cells, x)
         IN IF x.pan = 1 THEN {Fault(x.op)}
            ELSE {f \in {IF x.look[i] = want[i].c THEN <<"", "">>
                         ELSE IF i = at THEN Fault(x.op)
                         ELSE <<"C24", Changed(want[i].k)>> : i \in 1..Len(want)} : f[1] # ""}
                 \* bytes that stop being the value's text are no output of it either
                 \cup {<<"C04", Changed("out")>> : i \in {j \in 1..Len(want) : j # at /\ want[j].k = "out" /\ x.look[j] # want[j].c}}

Init == l = 1 /\ cells = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET x == Trace[l] IN
           IF x.op = "reset" THEN cells' = <<>>
           ELSE LET b == Bad(x) IN
                /\ b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
                /\ cells' = (IF ~Possible(cells, x) THEN cells
                             ELSE LET w == After(cells, x)
                                  IN [i \in 1..Len(w) |-> [w[i] EXCEPT !.c = IF i <= Len(x.look) THEN x.look[i] ELSE @]])
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
