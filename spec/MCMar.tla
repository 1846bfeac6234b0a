-------------------------------- MODULE MCMar --------------------------------
(***************************************************************************)
(* Exhaustive exploration of marshal options: for each document, every      *)
(* sequence of at most MaxOpts options of its alphabet, in every split into     *)
(* defaults and options of the call.  The laws of C04-C09 are checked on    *)
(* the specification itself, and each state is emitted (@@T) for replay.    *)
(***************************************************************************)
EXTENDS JVMarshal, Json

CONSTANTS MaxOpts, Emitting

VARIABLES tree, kind, def, call
vars == <<tree, kind, def, call>>

O0 == [o |-> "", b |-> 0, i |-> 0, s |-> <<>>, s2 |-> <<>>, ks |-> <<>>,
       nt |-> 0, ns |-> <<>>, it |-> 0, ip |-> <<>>, in |-> <<>>]
a == <<97>>   b == <<98>>   c == <<99>>   z == <<122>>
One == NumNode(<<49>>)   F15 == <<49, 46, 53>>   FN2 == <<45, 50, 46, 53>>

(* kind 1: order, nulls, layout; 2: NaN and Inf; 3: characters; 4: empties, everything at once;
   5: members that do or do not become null under every conversion *)
Doc(k) ==
    CASE k = 1 -> ObjNode(<<b, c, a, <<98, 98>>>>,
                    <<NullNode, ArrNode(<<NullNode, ObjNode(<<z, a>>, <<One, NullNode>>)>>), One,
                      ObjNode(<<c, b>>, <<ObjNode(<<b, a>>, <<One, StrNode(b)>>), NullNode>>)>>)
      [] k = 2 -> ArrNode(<<NumNode(LitNaN), ObjNode(<<b, a>>, <<NumNode(LitPInf), NumNode(LitNInf)>>), One>>)
      [] k = 3 -> ObjNode(<<<<47, 60, 195, 169>>>>,
                    <<StrNode(<<34, 92, 47, 60, 62, 38, 127, 1, 9, 65, 195, 169, 226, 128, 168, 240, 159, 152, 128>>)>>)
      [] k = 5 -> ObjNode(<<b, a, c, z, <<98, 98>>, <<97, 97>>, <<122, 122>>>>,
                    <<NumNode(LitNaN), NullNode, NumNode(LitNInf), StrNode(<<>>), BoolNode(0), ArrNode(<<NullNode>>),
                      ObjNode(<<c, b, a, z>>, <<NumNode(LitPInf), ObjNode(<<a>>, <<NullNode>>), NumNode(LitNaN), ArrNode(<<>>)>>)>>)
      [] OTHER -> ObjNode(<<b, a>>, <<ArrNode(<<ObjNode(<<>>, <<>>), ArrNode(<<>>), NullNode, NumNode(LitNInf)>>),
                                      ObjNode(<<<<195, 169>>>>, <<StrNode(<<47, 60>>)>>)>>)
Alphabet(k) ==
    LET order == {[O0 EXCEPT !.o = "defstr"], [O0 EXCEPT !.o = "setseq"],
                  [O0 EXCEPT !.o = "keyseq", !.ks = <<c, b>>], [O0 EXCEPT !.o = "keyseq", !.ks = <<a>>],
                  [O0 EXCEPT !.o = "keyseq"], [O0 EXCEPT !.o = "less", !.i = 2], [O0 EXCEPT !.o = "less", !.i = 5],
                  [O0 EXCEPT !.o = "less"]}
        nulls == {[O0 EXCEPT !.o = "omit", !.b = 1], [O0 EXCEPT !.o = "omit"]}
        lay   == {[O0 EXCEPT !.o = "indent", !.s = <<32>>, !.s2 = <<9>>], [O0 EXCEPT !.o = "indent"]}
        opts  == {[O0 EXCEPT !.o = "opt"], [O0 EXCEPT !.o = "opt", !.b = 1, !.i = 2],
                  [O0 EXCEPT !.o = "opt", !.ks = <<c>>]}
        nans  == {[O0 EXCEPT !.o = "nanF", !.s = F15], [O0 EXCEPT !.o = "nanF", !.s = LitPInf], [O0 EXCEPT !.o = "nanN"],
                  [O0 EXCEPT !.o = "nanS", !.s = <<110, 34>>], [O0 EXCEPT !.o = "nanStd"]}
        infs  == {[O0 EXCEPT !.o = "infF", !.s = FN2], [O0 EXCEPT !.o = "infF", !.s = LitNaN], [O0 EXCEPT !.o = "infN"],
                  [O0 EXCEPT !.o = "infS", !.s = <<43, 43, 120>>], [O0 EXCEPT !.o = "infS", !.s = <<43>>, !.s2 = <<47>>],
                  [O0 EXCEPT !.o = "infS", !.s2 = <<45>>], [O0 EXCEPT !.o = "infStd"]}
        optn  == {[O0 EXCEPT !.o = "opt"], [O0 EXCEPT !.o = "opt", !.nt = 3, !.it = 3],
                  [O0 EXCEPT !.o = "opt", !.nt = 1, !.ns = F15, !.it = 1, !.ip = F15],
                  [O0 EXCEPT !.o = "opt", !.it = 2]}
        esc   == {[O0 EXCEPT !.o = "html"], [O0 EXCEPT !.o = "html", !.b = 1], [O0 EXCEPT !.o = "slash"],
                  [O0 EXCEPT !.o = "slash", !.b = 1], [O0 EXCEPT !.o = "utf8"]}
    IN CASE k = 1 -> order \cup nulls \cup lay \cup opts
         [] k = 2 -> nans \cup infs \cup optn
         [] k = 3 -> esc \cup lay \cup {[O0 EXCEPT !.o = "opt"], [O0 EXCEPT !.o = "defstr"], [O0 EXCEPT !.o = "ignomit"]}
         [] k = 5 -> nulls \cup lay \cup {[O0 EXCEPT !.o = "nanN"], [O0 EXCEPT !.o = "nanStd"], [O0 EXCEPT !.o = "nanF", !.s = <<48>>],
                      [O0 EXCEPT !.o = "nanS"], [O0 EXCEPT !.o = "infN"], [O0 EXCEPT !.o = "infF", !.s = <<48>>], [O0 EXCEPT !.o = "infStd"],
                      [O0 EXCEPT !.o = "opt", !.b = 1, !.nt = 2, !.it = 2], [O0 EXCEPT !.o = "keyseq", !.ks = <<z, b>>],
                      [O0 EXCEPT !.o = "defstr"], [O0 EXCEPT !.o = "setseq"], [O0 EXCEPT !.o = "ignomit"]}
         [] OTHER -> {[O0 EXCEPT !.o = "omit", !.b = 1], [O0 EXCEPT !.o = "indent", !.s2 = <<32, 32>>],
                      [O0 EXCEPT !.o = "infN"], [O0 EXCEPT !.o = "infStd"], [O0 EXCEPT !.o = "utf8"],
                      [O0 EXCEPT !.o = "html"], [O0 EXCEPT !.o = "defstr"], [O0 EXCEPT !.o = "setseq"],
                      [O0 EXCEPT !.o = "opt", !.it = 2], [O0 EXCEPT !.o = "ignomit"]}

EmitTest == Emitting => PrintT("@@T " \o ToJson([def |-> def', call |-> call', tree |-> tree']))
Init == /\ kind \in 1..5
        /\ tree = Doc(kind)
        /\ def = <<>> /\ call = <<>>
AddDefault(o) == call = <<>> /\ def' = Append(def, o) /\ UNCHANGED <<tree, kind, call>>
AddOption(o) == call' = Append(call, o) /\ UNCHANGED <<tree, kind, def>>
Next == /\ Len(def) + Len(call) < MaxOpts
        /\ \E o \in Alphabet(kind) : AddDefault(o) \/ AddOption(o)
        /\ EmitTest
Spec == Init /\ [][Next]_vars

(* -------------------------------- laws -------------------------------- *)
S == Settings(def, call)
X == Expect(S, tree, 0)
All == def \o call
(* C04-C08: what the reference marshaler writes is accepted, and an error is
   accepted exactly where a NaN or infinity has no conversion               *)
RefOK == IF HasBad(X) THEN OutputProblems(S, tree, 1, <<>>) = {} /\ OutputProblems(S, tree, 0, <<110>>) # {}
         ELSE OutputProblems(S, tree, 0, Ser(S, X, 0)) = {} /\ OutputProblems(S, tree, 1, <<>>) # {}
(* a marshaler that got one setting wrong is noticed                         *)
Others == {[S EXCEPT !.omit = ~S.omit], [S EXCEPT !.utf8 = ~S.utf8], [S EXCEPT !.html = ~S.html],
           [S EXCEPT !.slash = ~S.slash], [S EXCEPT !.ind = Nothing.ind],
           [S EXCEPT !.ind = [on |-> TRUE, p |-> <<32>>, i |-> <<32>>]],
           [S EXCEPT !.nan = [k |-> 2, s |-> <<>>]], [S EXCEPT !.inf = [k |-> 3, s |-> <<>>, s2 |-> <<>>]]}
          \cup (IF S.ord.k = "none" THEN {} ELSE {[S EXCEPT !.ord = LessOrder(i)] : i \in {1, 2}}
                                               \cup {[S EXCEPT !.ord = [k |-> "set", i |-> 0, ks |-> <<>>]]})
Discriminates ==
    HasBad(X) \/ \A T \in Others :
        LET Y == Expect(T, tree, 0)
        IN HasBad(Y) \/ Ser(T, Y, 0) = Ser(S, X, 0) \/ OutputProblems(S, tree, 0, Ser(T, Y, 0)) # {}
(* C09: later wins, repeating changes nothing, an Opt replaces what came before,
   and options of different concerns commute                                *)
Concern(o) == CASE o.o \in {"less", "defstr", "keyseq", "setseq"} -> "ord"
                [] o.o \in {"nanF", "nanN", "nanS", "nanStd"} -> "nan"
                [] o.o \in {"infF", "infN", "infS", "infStd"} -> "inf"
                [] OTHER -> o.o
LaterWins ==
    /\ Settings(def, call) = Settings(<<>>, All)
    /\ All # <<>> =>
         LET o == All[Len(All)] IN
         /\ Merge(S, o) = S
         /\ o.o = "opt" => S = Merge(Nothing, o)
         /\ Len(All) >= 2 =>
              LET p == All[Len(All) - 1]
                  T == Settings(<<>>, SubSeq(All, 1, Len(All) - 2))
              IN Concern(o) # Concern(p) /\ "opt" \notin {o.o, p.o} => Merge(Merge(T, o), p) = Merge(Merge(T, p), o)
(* C07: indentation adds blanks and nothing else                            *)
SameTokens ==
    HasBad(X) \/ LET T == [S EXCEPT !.ind = Nothing.ind]
                     u == Tokens(Ser(S, X, 0)).toks   v == Tokens(Ser(T, X, 0)).toks
                 IN [i \in 1..Len(u) |-> u[i].x] = [i \in 1..Len(v) |-> v[i].x]
=============================================================================
