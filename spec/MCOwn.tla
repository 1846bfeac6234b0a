-------------------------------- MODULE MCOwn --------------------------------
(***************************************************************************)
(* Ownership as the library implements it, in memory blocks, against JVOwn:   *)
(* all histories of at most MaxOps operations.  A text block holds bytes; a   *)
(* tree block holds a content and the text block its numbers and strings       *)
(* point into.  Design "copy" is the library: parsing copies the caller's      *)
(* bytes, Marshal's output is fresh memory, copies of values are deep.         *)
(* Designs "alias" (parse in the caller's bytes), "rawalias" (parse in what a *)
(* marshaler returned), "pooled" (output memory is used again) and             *)
(* "shallow" (a copy shares the tree) are ways to get it wrong: *)
(* each breaks Isolated (tools/selftest.py).  Each history is printed (@@T) for *)
(* the driver to run.                                                           *)
(***************************************************************************)
EXTENDS JVOwn, FiniteSets, TLC, Json

CONSTANTS MaxOps, Contents, Design, Emitting

VARIABLES cells, hist,       \* the world as it should be
          text, tree, at     \* blocks: contents of texts; [c, t] of trees; block of each cell
vars == <<cells, hist, text, tree, at>>

Torn == -1
View(i) == IF cells[i].k = "val"
           THEN LET b == tree[at[i]] IN IF b.t = 0 \/ text[b.t] = b.c THEN b.c ELSE Torn
           ELSE text[at[i]]
Isolated == \A i \in 1..Len(cells) : View(i) = cells[i].c

Op(op, s, d, c) == [op |-> op, s |-> s, d |-> d, c |-> c]
Is(i, k) == Kind(cells, i, k)
Idx == 1..Len(cells)
Ops == {Op("text", 0, 0, c) : c \in Contents}
       \cup {Op(op, i, 0, 0) : op \in {"parse", "raw", "txt"}, i \in {i \in Idx : Is(i, "buf")}}
       \cup {Op("into", x[1], x[2], 0) : x \in {x \in Idx \X Idx : Is(x[1], "buf") /\ Is(x[2], "val")}}
       \cup {Op(op, i, 0, 0) : op \in {"mar", "copy", "exp"}, i \in {i \in Idx : Is(i, "val")}}
       \cup {Op("imp", i, 0, 0) : i \in {i \in Idx : Is(i, "go")}}
       \cup {Op("mut", 0, i, c) : i \in {i \in Idx : Is(i, "val")}, c \in Contents}
       \cup {Op("write", 0, i, c) : i \in {i \in Idx : ~Is(i, "val")}, c \in Contents}

NewText(c) == text' = Append(text, c)
T == Len(text) + 1
B == Len(tree) + 1
(* the blocks after parsing the text at block b                              *)
Parsed(op, b) == IF Design = "alias" \/ (Design = "rawalias" /\ op = "raw") THEN [t |-> b, tx |-> text]
             ELSE [t |-> T, tx |-> Append(text, text[b])]
Outs == {i \in Idx : Is(i, "out")}
Apply(o) ==
    CASE o.op = "text" -> NewText(o.c) /\ tree' = tree /\ at' = Append(at, T)
      [] o.op \in {"parse", "raw"} ->
            LET p == Parsed(o.op, at[o.s])
            IN text' = p.tx /\ tree' = Append(tree, [c |-> text[at[o.s]], t |-> p.t]) /\ at' = Append(at, B)
      [] o.op = "into" ->
            LET p == Parsed(o.op, at[o.s])
            IN text' = p.tx /\ tree' = [tree EXCEPT ![at[o.d]] = [c |-> text[at[o.s]], t |-> p.t]] /\ at' = at
      [] o.op = "mar" ->
            IF Design = "pooled" /\ Outs # {}
            THEN LET b == at[CHOOSE i \in Outs : \A j \in Outs : i >= j]
                 IN text' = [text EXCEPT ![b] = View(o.s)] /\ tree' = tree /\ at' = Append(at, b)
            ELSE NewText(View(o.s)) /\ tree' = tree /\ at' = Append(at, T)
      [] o.op = "copy" ->
            IF Design = "shallow" THEN text' = text /\ tree' = tree /\ at' = Append(at, at[o.s])
            ELSE text' = text /\ tree' = Append(tree, tree[at[o.s]]) /\ at' = Append(at, B)
      [] o.op = "txt" -> NewText(text[at[o.s]]) /\ tree' = tree /\ at' = Append(at, T)
      [] o.op = "exp" -> NewText(View(o.s)) /\ tree' = tree /\ at' = Append(at, T)
      [] o.op = "imp" -> text' = text /\ tree' = Append(tree, [c |-> text[at[o.s]], t |-> 0]) /\ at' = Append(at, B)
      [] o.op = "mut" -> text' = text /\ tree' = [tree EXCEPT ![at[o.d]] = [c |-> o.c, t |-> 0]] /\ at' = at
      [] o.op = "write" -> text' = [text EXCEPT ![at[o.d]] = o.c] /\ tree' = tree /\ at' = at

Init == \E c \in Contents :
          /\ cells = <<New("buf", c)>> /\ hist = <<Op("text", 0, 0, c)>>
          /\ text = <<c>> /\ tree = <<>> /\ at = <<1>>
Next == /\ Len(hist) <= MaxOps
        /\ \E o \in Ops :
             /\ Assert(Possible(cells, o), <<"impossible", o>>)
             /\ Apply(o)
             /\ cells' = After(cells, o)
             /\ hist' = Append(hist, o)
             /\ (Emitting /\ Len(hist) = MaxOps) => PrintT("@@T " \o ToJson(hist'))
Spec == Init /\ [][Next]_vars

(* an operation changes one cell at most                                     *)
OneAtATime == [][\A i \in Idx : i = Target(cells, hist'[Len(hist')]) \/ cells'[i] = cells[i]]_vars
=============================================================================
