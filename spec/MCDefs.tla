-------------------------------- MODULE MCDefs --------------------------------
(***************************************************************************)
(* The default options as a shared register of several concerns (escaping,   *)
(* order, NaN policy, ...).  Setters build a setting concern by concern and   *)
(* publish it; Marshal calls take the published setting and use its concerns   *)
(* one after another.  For every interleaving a Marshal call must use one      *)
(* setting throughout, and one that was in force during the call.             *)
(* Protocol "private": build privately, publish once, read once (the           *)
(* library).  "early": publish, then build.  "again": readers look again for    *)
(* each concern.  The last two violate the invariants (tools/selftest.py).     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Setters, Readers, Calls, Concerns, Protocol

VARIABLES reg, ver, done, spc, sver, sbuilt, rpc, rsnap, rused, rwin, nset, nread
vars == <<reg, ver, done, spc, sver, sbuilt, rpc, rsnap, rused, rwin, nset, nread>>

(* a setting is a function from concerns to the version that wrote them       *)
Blank == [c \in 1..Concerns |-> 0]
Init == /\ reg = Blank /\ ver = 0 /\ done = 0
        /\ spc = [s \in Setters |-> "idle"] /\ sver = [s \in Setters |-> 0] /\ sbuilt = [s \in Setters |-> Blank]
        /\ rpc = [r \in Readers |-> 0] /\ rsnap = [r \in Readers |-> Blank] /\ rused = [r \in Readers |-> Blank]
        /\ rwin = [r \in Readers |-> {}]
        /\ nset = 0 /\ nread = 0

Window(v) == [r \in Readers |-> IF rpc[r] = 0 THEN rwin[r] ELSE rwin[r] \cup {v}]
SetCall(s) ==
    /\ spc[s] = "idle" /\ nset < Calls * Cardinality(Setters)
    /\ nset' = nset + 1 /\ ver' = ver + 1
    /\ sver' = [sver EXCEPT ![s] = ver + 1] /\ sbuilt' = [sbuilt EXCEPT ![s] = Blank]
    /\ spc' = [spc EXCEPT ![s] = "build"]
    /\ reg' = (IF Protocol = "early" THEN Blank ELSE reg)
    /\ UNCHANGED <<done, rpc, rsnap, rused, rwin, nread>>
Build(s) ==
    /\ spc[s] = "build"
    /\ \E c \in 1..Concerns :
        /\ sbuilt[s][c] = 0
        /\ sbuilt' = [sbuilt EXCEPT ![s][c] = sver[s]]
        /\ reg' = (IF Protocol = "early" THEN [reg EXCEPT ![c] = sver[s]] ELSE reg)
    /\ spc' = [spc EXCEPT ![s] = IF \A c \in 1..Concerns : sbuilt'[s][c] # 0 THEN "publish" ELSE "build"]
    /\ UNCHANGED <<ver, done, sver, rpc, rsnap, rused, rwin, nset, nread>>
Publish(s) ==
    /\ spc[s] = "publish"
    /\ reg' = sbuilt[s] /\ rwin' = Window(sver[s])
    /\ spc' = [spc EXCEPT ![s] = "return"]
    /\ UNCHANGED <<ver, done, sver, sbuilt, rpc, rsnap, rused, nset, nread>>
SetReturn(s) ==
    /\ spc[s] = "return"
    /\ spc' = [spc EXCEPT ![s] = "idle"] /\ done' = done + 1
    /\ UNCHANGED <<reg, ver, sver, sbuilt, rpc, rsnap, rused, rwin, nset, nread>>

(* readers: 0 idle, 1 called, 2.. using concern pc-1                          *)
ReadCall(r) ==
    /\ rpc[r] = 0 /\ nread < Calls * Cardinality(Readers)
    /\ nread' = nread + 1
    /\ rpc' = [rpc EXCEPT ![r] = 1] /\ rused' = [rused EXCEPT ![r] = Blank]
    /\ rwin' = [rwin EXCEPT ![r] = {reg[1]}]
    /\ UNCHANGED <<reg, ver, done, spc, sver, sbuilt, rsnap, nset>>
Take(r) ==
    /\ rpc[r] = 1
    /\ rsnap' = [rsnap EXCEPT ![r] = reg]
    /\ rpc' = [rpc EXCEPT ![r] = 2]
    /\ UNCHANGED <<reg, ver, done, spc, sver, sbuilt, rused, rwin, nset, nread>>
Use(r) ==
    /\ rpc[r] \in 2..(Concerns + 1)
    /\ LET c == rpc[r] - 1
       IN rused' = [rused EXCEPT ![r][c] = IF Protocol = "again" THEN reg[c] ELSE rsnap[r][c]]
    /\ rpc' = [rpc EXCEPT ![r] = @ + 1]
    /\ UNCHANGED <<reg, ver, done, spc, sver, sbuilt, rsnap, rwin, nset, nread>>
ReadReturn(r) ==
    /\ rpc[r] = Concerns + 2
    /\ rpc' = [rpc EXCEPT ![r] = 0]
    /\ UNCHANGED <<reg, ver, done, spc, sver, sbuilt, rsnap, rused, rwin, nset, nread>>
Next == \/ \E s \in Setters : SetCall(s) \/ Build(s) \/ Publish(s) \/ SetReturn(s)
        \/ \E r \in Readers : ReadCall(r) \/ Take(r) \/ Use(r) \/ ReadReturn(r)
Spec == Init /\ [][Next]_vars

Finished(r) == rpc[r] = Concerns + 2
OneSetting == \A r \in Readers : Finished(r) => \A c \in 1..Concerns : rused[r][c] = rused[r][1]
InForce == \A r \in Readers : Finished(r) => rused[r][1] \in rwin[r]
(* a setting whose call returned is in force, or a newer one is               *)
Settled == (\A s \in Setters : spc[s] = "idle") => (ver = 0 \/ reg[1] # 0)
=============================================================================
