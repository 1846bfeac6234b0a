-------------------------------- MODULE JVOwn --------------------------------
(***************************************************************************)
(* Who owns which data.  The world is a list of cells: texts in the caller's *)
(* memory ("buf"), values ("val"), outputs of Marshal ("out") and Go values   *)
(* ("go").  All that matters of a cell is which content it holds, a number.   *)
(* Every operation reads one cell and changes at most one; a cell keeps its   *)
(* content until it is itself written, whatever happens to the others.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Kind(cells, i, k) == i \in 1..Len(cells) /\ cells[i].k = k
New(k, c) == [k |-> k, c |-> c]

(* "raw" imports a raw message, or what a marshaler returns, and "txt" a text
   marshaler's result, kept in memory of the caller.
   o.s is read, o.d written, o.c the content written by the caller            *)
Possible(cells, o) ==
    CASE o.op = "text"  -> TRUE
      [] o.op = "parse" -> Kind(cells, o.s, "buf")
      [] o.op \in {"raw", "txt"} -> Kind(cells, o.s, "buf")
      [] o.op = "into"  -> Kind(cells, o.s, "buf") /\ Kind(cells, o.d, "val")
      [] o.op = "mar"   -> Kind(cells, o.s, "val")
      [] o.op = "copy"  -> Kind(cells, o.s, "val")
      [] o.op = "exp"   -> Kind(cells, o.s, "val")
      [] o.op = "imp"   -> Kind(cells, o.s, "go")
      [] o.op = "mut"   -> Kind(cells, o.d, "val")
      [] o.op = "write" -> o.d \in 1..Len(cells) /\ cells[o.d].k # "val"
      [] OTHER -> FALSE
Makes(op) == CASE op = "text" -> "buf" [] op \in {"parse", "raw", "copy", "imp"} -> "val"
               [] op \in {"mar", "txt"} -> "out" [] op = "exp" -> "go" [] OTHER -> ""
Given(cells, o) == IF o.op \in {"text", "mut", "write"} THEN o.c ELSE cells[o.s].c
Target(cells, o) == IF Makes(o.op) # "" THEN Len(cells) + 1 ELSE o.d
After(cells, o) == IF Makes(o.op) # "" THEN Append(cells, New(Makes(o.op), Given(cells, o)))
                   ELSE [cells EXCEPT ![o.d].c = Given(cells, o)]
=============================================================================
