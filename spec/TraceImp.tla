------------------------------- MODULE TraceImp -------------------------------
(***************************************************************************)
(* Validates recorded conversions between Go values and jsonvalues (driver  *)
(* family "imp") against JVImport.                                          *)
(***************************************************************************)
EXTENDS JVImport, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

If(c, bad) == IF c THEN {} ELSE {bad}

(* a Go value brought in.  x.g: the value, x.how, x.ign; x.e, x.t: outcome;  *)
(* x.je, x.js: what encoding/json made of it                                *)
Reference(x) ==         \* is encoding/json of the same opinion?
    LET tool == IF HasV(x.g) THEN "C23" ELSE "TOOL"
        g == x.g
    IN IF HasBadMap(g) THEN {}       \* depends on the Go version
       ELSE IF Errs(g, FALSE) THEN If(x.je = 1, <<tool, "encoding/json accepts the value">>)
       ELSE IF Free(g) THEN {}
       ELSE IF x.je = 1 THEN {<<tool, "encoding/json refuses the value">>}
       ELSE LET j == Judge(x.js) IN If(j.out \/ (j.v = "acc" /\ Fits(g, j.tree, FALSE, FALSE)), <<tool, "encoding/json writes something else">>)
CheckImp(x) ==
    Reference(x) \cup
    (IF x.pan = 1 THEN {<<"C22", "panic">>}
     ELSE IF Errs(x.g, x.ign = 1)
     THEN If(x.e = 1 /\ x.t.t = TNot, <<"C22", "unsupported value accepted">>)
     ELSE IF Free(x.g) THEN {}
     ELSE If(x.e = 0, <<"C22", "value refused">>)
          \cup (IF x.e # 0 THEN {} ELSE If(Fits(x.g, x.t, FALSE, x.ign = 1), <<"C22", "tree of the value">>))
          \cup If(x.same = 1, <<"C22", "the Go value was changed">>))

(* a value exported: x.a the destination, x.b what encoding/json makes of    *)
(* the same document in the same destination                                *)
CheckExp(x) ==
    IF x.pan = 1 THEN {<<"C23", "panic">>}
    ELSE If(x.ea = x.eb, <<"C23", "error of Export">>)
         \cup If(x.a = x.b \/ SameGo(x.a, x.b), <<"C23", "exported value">>)
         \cup If(x.same = 1, <<"C23", "Export changed the value">>)

(* a text decoded into a place that held x.was (x.had=0: nil pointer)        *)
CheckUnj(x) ==
    LET j == Judge(x.in) IN
    IF x.pan = 1 THEN {<<"C23", "panic">>}
    ELSE IF j.v = "acc"
    THEN If(x.e = 0, <<"C23", "decoding refused a document">>)
         \cup (IF x.e # 0 THEN {}
               ELSE If((x.is = 1 /\ x.now = j.tree) \/ (x.is = 0 /\ x.ptr = 1 /\ j.tree = NullNode),
                       <<"C23", "decoded content">>))
    ELSE IF j.v = "ref"
    THEN If(x.e = 1, <<"C23", "decoding accepted a bad document">>)
         \cup (IF x.e = 0 THEN {} ELSE If(IF x.had = 1 THEN x.is = 1 /\ x.now = x.was ELSE x.is = 0 \/ x.now.t = TNot,
                                            <<"C23", "refused text changed the value">>))
    ELSE {}

Bad(x) == CASE x.op = "imp" -> CheckImp(x)
            [] x.op = "exp" -> CheckExp(x)
            [] x.op = "unj" -> CheckUnj(x)
            [] OTHER -> {<<"TOOL", "unknown line">>}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET b == Bad(Trace[l])
           IN b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Spec == Init /\ [][Next]_l
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
