------------------------------ MODULE MCPredict ------------------------------
(***************************************************************************)
(* The size statistics that every parse reads and updates: one packed word   *)
(* (total bytes, values) plus an average that is fixed when the total rolls  *)
(* over.  Each parse loads them, uses them to size its pool, and adds its     *)
(* own counts with an unsynchronised load and store.  Explored for every      *)
(* interleaving and every number of parses: updates may be lost, but the average stays positive, the     *)
(* pool never exceeds the text, and the values handed out do not depend on it.*)
(* The halves of the word hold numbers below 2 * (Limit + 1); without the cap  *)
(* on the average (Capped = FALSE) a rollover may wrap around and divide by    *)
(* zero, a defect of the original code (fixed, e3b1c9f).                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Procs, Limit, MaxRaw, First, Capped

VARIABLES bpv, word, pc, loc
vars == <<bpv, word, pc, loc>>

Half == 2 * (Limit + 1)
W(t, n) == [t |-> t % Half, n |-> n % Half]
Nil == [raw |-> 0, act |-> 0, per |-> 1, cnt |-> 0, old |-> W(0, 0), out |-> 0]

Init == /\ bpv = 0 /\ word = W(First, 1)
        /\ pc = [p \in Procs |-> "idle"] /\ loc = [p \in Procs |-> Nil]

(* a text of raw bytes holds at most raw values; malformed text may hold none *)
Call(p) == /\ pc[p] = "idle"
           /\ \E raw \in 0..MaxRaw : \E act \in 0..raw :
                loc' = [loc EXCEPT ![p] = [Nil EXCEPT !.raw = raw, !.act = act]]
           /\ pc' = [pc EXCEPT ![p] = "load"]
           /\ UNCHANGED <<bpv, word>>
Load(p) == /\ pc[p] = "load"
           /\ IF bpv > 0 THEN /\ loc' = [loc EXCEPT ![p].per = bpv] /\ pc' = [pc EXCEPT ![p] = "pool"]
              ELSE /\ pc' = [pc EXCEPT ![p] = "load2"] /\ loc' = loc
           /\ UNCHANGED <<bpv, word>>
Load2(p) == /\ pc[p] = "load2"
            /\ Assert(word.n > 0, "division by zero")
            /\ loc' = [loc EXCEPT ![p].per = word.t \div word.n]
            /\ pc' = [pc EXCEPT ![p] = "pool"] /\ UNCHANGED <<bpv, word>>
Pool(p) == /\ pc[p] = "pool"
           /\ Assert(loc[p].per > 0, "division by zero")
           /\ loc' = [loc EXCEPT ![p].cnt = loc[p].raw \div loc[p].per]
           /\ pc' = [pc EXCEPT ![p] = "parse"] /\ UNCHANGED <<bpv, word>>
(* the first cnt values come from the pool, the rest one by one               *)
Parse(p) == /\ pc[p] = "parse"
            /\ loc' = [loc EXCEPT ![p] = [@ EXCEPT !.per = 1, !.cnt = 0, !.out = LET c == loc[p].cnt  a == loc[p].act
                                             IN (IF a < c THEN a ELSE c) + (IF a > c THEN a - c ELSE 0)]]
            /\ pc' = [pc EXCEPT ![p] = "add"] /\ UNCHANGED <<bpv, word>>
Add(p) == /\ pc[p] = "add"
          /\ loc' = [loc EXCEPT ![p].old = word]
          /\ pc' = [pc EXCEPT ![p] = "store"] /\ UNCHANGED <<bpv, word>>
Average(t, n) == IF Capped /\ t \div n > Limit THEN Limit ELSE t \div n
Store(p) ==
    /\ pc[p] = "store"
    /\ LET t == loc[p].old.t + loc[p].raw
           n == loc[p].old.n + loc[p].act
       IN IF t < Limit
          THEN word' = W(t, n) /\ pc' = [pc EXCEPT ![p] = "idle"] /\ bpv' = bpv /\ loc' = [loc EXCEPT ![p] = Nil]
          ELSE bpv' = Average(t, n) /\ pc' = [pc EXCEPT ![p] = "roll"] /\ word' = word /\ loc' = loc
Roll(p) == /\ pc[p] = "roll"
           /\ LET per == Average(loc[p].old.t + loc[p].raw, loc[p].old.n + loc[p].act)
              IN word' = W(per, 1)
           /\ pc' = [pc EXCEPT ![p] = "idle"] /\ loc' = [loc EXCEPT ![p] = Nil] /\ bpv' = bpv
Next == \E p \in Procs : Call(p) \/ Load(p) \/ Load2(p) \/ Pool(p) \/ Parse(p) \/ Add(p) \/ Store(p) \/ Roll(p)
Spec == Init /\ [][Next]_vars

Sane == word.n >= 1 /\ word.t >= word.n /\ bpv >= 0
PoolFits == \A p \in Procs : pc[p] \in {"parse", "add", "store"} => loc[p].cnt >= 0 /\ loc[p].cnt <= loc[p].raw
ResultsIndependent == \A p \in Procs : pc[p] \in {"add", "store", "roll"} => loc[p].out = loc[p].act
=============================================================================
