-------------------------------- MODULE MCText --------------------------------
(***************************************************************************)
(* Exhaustive exploration of the JSON text automaton over a representative *)
(* alphabet.  States are identified by control state (VIEW), so TLC walks   *)
(* every control state and every byte from it: the texts printed as @@T     *)
(* cover every transition of the grammar, followed by the shortest way to   *)
(* complete the document.  They are replayed into the library by the driver.*)
(*                                                                         *)
(* Invariants: the specification is coherent                                *)
(*   Completable  no live state is a dead end;                              *)
(*   RoundTrip    the canonical text of a tree denotes that tree;           *)
(*   Agree        the byte-wise automaton agrees with the declarative       *)
(*                recursive grammar below.                                  *)
(***************************************************************************)
EXTENDS JVText, Json

CONSTANTS MaxDepth, MaxLen, Emitting

VARIABLES a, txt
vars == <<a, txt>>

Alphabet == {32, 10, 8, 1, 34, 39, 43, 44, 45, 46, 47, 48, 49, 57, 58, 69, 91, 92, 93,
             97, 98, 100, 101, 102, 108, 110, 114, 115, 116, 117, 123, 125, 56, 195, 169, 68}

(* Control state: what decides the future of the automaton                  *)
Shape(s) == [i \in 1..Len(s.st) |-> <<s.st[i].o, s.st[i].e = <<>>, Len(s.st[i].k) > 0>>]
Uni(s) == IF s.m = MUni
          THEN <<s.aux[1], s.aux[2] = 0,
                 s.aux[1] > 0 /\ s.aux[2] = 13,
                 s.aux[1] = 2 /\ s.aux[2] \in 216..219, s.aux[1] = 2 /\ s.aux[2] \in 220..223,
                 s.aux[1] = 3 /\ s.aux[2] \in 3456..3519, s.aux[1] = 3 /\ s.aux[2] \in 3520..3583>>
          ELSE <<>>
View == <<a.m, Shape(a), a.key, a.lit, Uni(a), a.hi # 0, a.lax, Len(a.buf) > 0,
          Len(a.buf) > 0 /\ a.buf[Len(a.buf)] > 127>>

(* The shortest way to a complete document                                  *)
RECURSIVE CloseAll(_)
CloseAll(st) == IF st = <<>> THEN <<>>
                ELSE <<IF st[Len(st)].o THEN 125 ELSE 93>> \o CloseAll(SubSeq(st, 1, Len(st) - 1))
InString(s) == <<34>> \o (IF s.key THEN <<58, 48>> ELSE <<>>)
Completion(s) ==
    LET rest == CloseAll(s.st)
    IN CASE s.m \in {MVal, MArrV} -> <<48>> \o rest
         [] s.m \in {MArr0, MObj0, MAft, MEnd} -> rest
         [] s.m = MObjK -> <<34, 34, 58, 48>> \o rest
         [] s.m = MCol -> <<58, 48>> \o rest
         [] s.m = MStr -> (IF s.hi # 0 THEN <<92, 117, 68, 67, 48, 48>> ELSE <<>>) \o InString(s) \o rest
         [] s.m = MEsc -> (IF s.hi # 0 THEN <<117, 68, 69, 48, 48>> ELSE <<110>>) \o InString(s) \o rest
         [] s.m = MUni -> [i \in 1..(4 - s.aux[1]) |-> 48]
                          \o (IF s.aux[1] > 0 /\ (LET v == s.aux[2] * (CASE s.aux[1] = 1 -> 4096 [] s.aux[1] = 2 -> 256 [] OTHER -> 16)
                                                  IN v \in 55296..56319)
                              THEN <<92, 117, 68, 70, 102, 102>> ELSE <<>>)
                          \o InString(s) \o rest
         [] s.m = MLit -> s.lit \o rest
         [] s.m >= MNum -> (IF s.m - MNum \in {3, 4, 6, 9} THEN <<>> ELSE <<48>>) \o rest
         [] OTHER -> <<>>

(* ------------------------------------------------------------------------
   The grammar written declaratively, as a second opinion on the automaton:
   P(t, i) is the set of positions where a value starting at i may end.
   Only the strict grammar (no leniency).                                   *)
Skip(t, i) == CHOOSE j \in i..(Len(t) + 1) :
                 (\A q \in i..(j-1) : Blank(t[q])) /\ (j > Len(t) \/ ~Blank(t[j]))
Has(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
HexAt(t, i) == \A q \in i..(i+3) : q <= Len(t) /\ HexVal(t[q]) >= 0
RECURSIVE StrEnd(_, _)           \* position after the closing quote, 0 if none
StrEnd(t, i) ==
    IF i > Len(t) \/ t[i] < 32 THEN 0
    ELSE IF t[i] = 34 THEN i + 1
    ELSE IF t[i] # 92 THEN StrEnd(t, i + 1)
    ELSE IF i + 1 > Len(t) THEN 0
    ELSE IF t[i+1] \in {34, 92, 47, 98, 102, 110, 114, 116} THEN StrEnd(t, i + 2)
    ELSE IF t[i+1] = 117 /\ HexAt(t, i + 2) THEN StrEnd(t, i + 6)
    ELSE 0
NumEnd(t, i) == IF \E j \in i..Len(t) : NumGrammar(SubSeq(t, i, j))
                THEN (CHOOSE j \in i..Len(t) : NumGrammar(SubSeq(t, i, j))
                        /\ \A q \in (j+1)..Len(t) : ~NumGrammar(SubSeq(t, i, q))) + 1
                ELSE 0
RECURSIVE ValEnd(_, _), ElemsEnd(_, _), MembersEnd(_, _)
ValEnd(t, i0) ==
    LET i == Skip(t, i0) IN
    IF i > Len(t) THEN 0
    ELSE IF t[i] = 34 THEN StrEnd(t, i + 1)
    ELSE IF Has(t, i, <<116, 114, 117, 101>>) \/ Has(t, i, <<110, 117, 108, 108>>) THEN i + 4
    ELSE IF Has(t, i, <<102, 97, 108, 115, 101>>) THEN i + 5
    ELSE IF t[i] = 91 THEN LET j == Skip(t, i + 1) IN
         IF j <= Len(t) /\ t[j] = 93 THEN j + 1 ELSE ElemsEnd(t, i + 1)
    ELSE IF t[i] = 123 THEN LET j == Skip(t, i + 1) IN
         IF j <= Len(t) /\ t[j] = 125 THEN j + 1 ELSE MembersEnd(t, i + 1)
    ELSE NumEnd(t, i)
ElemsEnd(t, i) ==
    LET e == ValEnd(t, i) IN
    IF e = 0 THEN 0
    ELSE LET j == Skip(t, e) IN
         IF j > Len(t) THEN 0
         ELSE IF t[j] = 93 THEN j + 1
         ELSE IF t[j] = 44 THEN ElemsEnd(t, j + 1) ELSE 0
MembersEnd(t, i0) ==
    LET i == Skip(t, i0)
        k == IF i <= Len(t) /\ t[i] = 34 THEN StrEnd(t, i + 1) ELSE 0
        c == IF k = 0 THEN 0 ELSE Skip(t, k)
        e == IF c = 0 \/ c > Len(t) THEN 0 ELSE IF t[c] # 58 THEN 0 ELSE ValEnd(t, c + 1)
    IN IF e = 0 THEN 0
       ELSE LET j == Skip(t, e) IN
            IF j > Len(t) THEN 0
            ELSE IF t[j] = 125 THEN j + 1
            ELSE IF t[j] = 44 THEN MembersEnd(t, j + 1) ELSE 0
Strict(t) == LET e == ValEnd(t, 1) IN e # 0 /\ Skip(t, e) = Len(t) + 1

(* ------------------------------ behaviour ------------------------------ *)
Init == a = Start /\ txt = <<>>
Next == \E c \in Alphabet :
          LET n == Step(a, c)
              t == Append(txt, c)
          IN /\ a.m # MErr
             /\ Len(n.st) <= MaxDepth
             /\ Len(t) <= MaxLen
             /\ a' = n /\ txt' = t
             /\ Emitting => (PrintT("@@T " \o ToJson(t)) /\
                             (n.m = MErr \/ PrintT("@@T " \o ToJson(t \o Completion(n)))))
Spec == Init /\ [][Next]_vars

(* canonical text of a tree *)
RECURSIVE Canon(_)
Quote(s) == <<34>> \o FoldLeft(LAMBDA acc, c : acc \o (IF c \in {34, 92} THEN <<92, c>>
                 ELSE IF c < 32 THEN <<92, 117, 48, 48, 48 + (c \div 16), IF (c % 16) < 10 THEN 48 + (c % 16) ELSE 87 + (c % 16)>>
                 ELSE <<c>>), <<>>, s) \o <<34>>
Canon(n) ==
    CASE n.t = TStr -> Quote(n.s)
      [] n.t = TNum -> n.s
      [] n.t = TBool -> IF n.s = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] n.t = TArr -> <<91>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<44>>) \o Canon(n.e[i]),
                                          <<>>, [i \in 1..Len(n.e) |-> i]) \o <<93>>
      [] n.t = TObj -> <<123>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<44>>)
                                              \o Quote(n.k[i]) \o <<58>> \o Canon(n.e[i]),
                                          <<>>, [i \in 1..Len(n.e) |-> i]) \o <<125>>
      [] OTHER -> <<110, 117, 108, 108>>

Done(s) == Run(txt \o Completion(s))
Completable == a.m = MErr \/ LET r == Done(a)
                             IN r.m = MEnd /\ (a.lax => r.lax)
RoundTrip == a.m = MErr \/ LET r == Done(a)
                           IN r.m = MEnd =>
                              LET q == Run(Canon(r.res)) IN q.m = MEnd /\ ~q.lax /\ q.res = r.res
(* the strict grammar accepts surrogate escapes that do not pair up, and is
   silent about number ranges; nothing else distinguishes it from the automaton *)
Agree == LET t == IF a.m = MErr THEN txt ELSE txt \o Completion(a)
             r == Run(t)
             surrogates == \E i \in 1..Len(t) : t[i] = 92 /\ Has(t, i + 1, <<117>>) /\ i + 3 <= Len(t) /\ t[i+2] \in {68, 100}
         IN IF r.m = MErr THEN ~Strict(t) \/ r.out
            ELSE IF r.lax THEN ~Strict(t) \/ surrogates
            ELSE Strict(t)
=============================================================================
