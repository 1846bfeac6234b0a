------------------------------- MODULE TraceDef -------------------------------
(***************************************************************************)
(* The default options as an atomic register (driver family "def").         *)
(*                                                                         *)
(* The trace holds the calls and returns of concurrent setters and readers  *)
(* (Marshal calls) in real-time order.  The state is the set of all         *)
(* configurations in which the register may be: the setting in force, the    *)
(* pending writes that already took effect and the pending reads that        *)
(* already saw a setting fitting their output.  The history is linearizable  *)
(* iff the set never becomes empty.                                         *)
(***************************************************************************)
EXTENDS JVMarshal, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fit, confs, writes, reads
vars == <<l, fit, confs, writes, reads>>

(* fit[o]: the settings under which output number o is right                 *)
FitOf(h, o) ==
    {i \in 0..(Len(h.sets) - 1) :
        OutputProblems(Settings(h.sets[i + 1], o.c), h.trees[o.t], o.e, o.out) = {}}
Fits(h) == [o \in 1..Len(h.outs) |-> FitOf(h, h.outs[o])]

(* a configuration, with every pending read its setting satisfies            *)
Seen(c, rs, f) == [c EXCEPT !.ok = @ \cup {r \in DOMAIN rs : c.cur \in f[rs[r]]}]
RECURSIVE Closure(_, _, _, _)
Closure(cs, ws, rs, f) ==
    LET more == cs \cup {Seen([cur |-> ws[q[2]], ap |-> q[1].ap \cup {q[2]}, ok |-> q[1].ok], rs, f) :
                             q \in {q \in cs \X DOMAIN ws : q[2] \notin q[1].ap}}
    IN IF more = cs THEN cs ELSE Closure(more, ws, rs, f)
Close(cs, ws, rs, f) == Closure({Seen(c, rs, f) : c \in cs}, ws, rs, f)

Drop(f, d) == [x \in DOMAIN f \ {d} |-> f[x]]
None == [x \in {} |-> 0]
Begin(i) == {[cur |-> i, ap |-> {}, ok |-> {}]}

Init == l = 1 /\ fit = <<>> /\ confs = Begin(0) /\ writes = None /\ reads = None
Report(b) == b = {} \/ PrintT("@@BAD " \o ToJson([l |-> l, b |-> b]))
Known(x) == x.x \in DOMAIN fit
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET x == Trace[l] IN
       CASE x.op = "reset" ->
                /\ fit' = Fits(x)
                /\ confs' = Begin(0) /\ writes' = None /\ reads' = None
                /\ Report((IF \E o \in DOMAIN fit' : fit'[o] = {} /\ x.outs[o].pan = 0
                           THEN {<<"C27", "output of no single setting">>} ELSE {})
                          \cup (IF \E o \in DOMAIN fit' : x.outs[o].pan = 1 THEN {<<"C27", "panic">>} ELSE {}))
         [] x.op = "sync" ->
                /\ confs' = Begin(x.x) /\ writes' = None /\ reads' = None /\ fit' = fit
                /\ Report(IF x.pan = 1 THEN {<<"C27", "panic">>} ELSE {})
         [] x.op = "w" ->
                /\ writes' = (x.id :> x.x) @@ writes /\ reads' = reads /\ fit' = fit
                /\ confs' = Close(confs, writes', reads, fit)
                /\ Report(IF x.pan = 1 THEN {<<"C27", "panic">>} ELSE {})
         [] x.op = "q" ->
                /\ reads' = (IF Known(x) THEN (x.id :> x.x) @@ reads ELSE reads) /\ writes' = writes /\ fit' = fit
                /\ confs' = Close(confs, writes, reads', fit)
         [] x.op = "r" /\ x.id \in DOMAIN writes ->
                /\ writes' = Drop(writes, x.id) /\ reads' = reads /\ fit' = fit
                /\ confs' = {[c EXCEPT !.ap = @ \ {x.id}] : c \in {c \in confs : x.id \in c.ap}}
         [] x.op = "r" /\ x.id \in DOMAIN reads ->
                LET good == {c \in confs : x.id \in c.ok} IN
                /\ reads' = Drop(reads, x.id) /\ writes' = writes /\ fit' = fit
                /\ confs' = {[c EXCEPT !.ok = @ \ {x.id}] : c \in (IF good = {} THEN confs ELSE good)}
                /\ Report(IF good = {} /\ fit[reads[x.id]] # {} THEN {<<"C27", "not the setting in force at any moment of the call">>} ELSE {})
         [] x.op = "r" -> UNCHANGED <<fit, confs, writes, reads>>
         [] OTHER -> Report({<<"TOOL", "unknown line">>}) /\ UNCHANGED <<fit, confs, writes, reads>>
Spec == Init /\ [][Next]_vars
Consumed == PrintT("@@DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
