------------------------------ MODULE JVMarshal ------------------------------
(***************************************************************************)
(* Marshaling: what the options mean and what an output must be.           *)
(*                                                                         *)
(* An option is a record with field o naming it.  Options are folded, in    *)
(* order, over Nothing (defaults first, then those of the call) into        *)
(* settings; each option touches its own concern only, except "opt" (an Opt *)
(* struct), which replaces everything.                                      *)
(***************************************************************************)
EXTENDS JVText

NoOrder == [k |-> "none", i |-> 0, ks |-> <<>>]
Nothing == [omit |-> FALSE, ord |-> NoOrder,
            nan |-> [k |-> 0, s |-> <<>>], inf |-> [k |-> 0, s |-> <<>>, s2 |-> <<>>],
            utf8 |-> FALSE, html |-> TRUE, slash |-> TRUE,
            ind |-> [on |-> FALSE, p |-> <<>>, i |-> <<>>]]

B(x) == x = 1
SeqOrder(ks) == IF ks = <<>> THEN NoOrder ELSE [k |-> "seq", i |-> 0, ks |-> ks]
LessOrder(i) == [k |-> "less", i |-> i, ks |-> <<>>]
Merge(S, o) ==
    CASE o.o = "omit"   -> [S EXCEPT !.omit = B(o.b)]
      [] o.o = "ignomit" -> S                                  \* concerns imports only
      [] o.o = "less"   -> IF o.i = 0 THEN S ELSE [S EXCEPT !.ord = LessOrder(o.i)]
      [] o.o = "defstr" -> [S EXCEPT !.ord = LessOrder(1)]
      [] o.o = "keyseq" -> [S EXCEPT !.ord = SeqOrder(o.ks)]
      [] o.o = "setseq" -> [S EXCEPT !.ord = [k |-> "set", i |-> 0, ks |-> <<>>]]
      [] o.o = "nanF"   -> [S EXCEPT !.nan = [k |-> 1, s |-> o.s]]
      [] o.o = "nanN"   -> [S EXCEPT !.nan = [k |-> 2, s |-> <<>>]]
      [] o.o = "nanS"   -> [S EXCEPT !.nan = [k |-> 3, s |-> o.s]]
      [] o.o = "nanStd" -> [S EXCEPT !.nan = [k |-> 3, s |-> <<>>]]
      [] o.o = "infF"   -> [S EXCEPT !.inf = [k |-> 1, s |-> o.s, s2 |-> <<>>]]
      [] o.o = "infN"   -> [S EXCEPT !.inf = [k |-> 2, s |-> <<>>, s2 |-> <<>>]]
      [] o.o = "infS"   -> [S EXCEPT !.inf = [k |-> 3, s |-> o.s, s2 |-> o.s2]]
      [] o.o = "infStd" -> [S EXCEPT !.inf = [k |-> 3, s |-> <<>>, s2 |-> <<>>]]
      [] o.o = "html"   -> [S EXCEPT !.html = B(o.b)]
      [] o.o = "utf8"   -> [S EXCEPT !.utf8 = TRUE]
      [] o.o = "slash"  -> [S EXCEPT !.slash = B(o.b)]
      [] o.o = "indent" -> [S EXCEPT !.ind = [on |-> TRUE, p |-> o.s, i |-> o.s2]]
      [] o.o = "opt"    -> [Nothing EXCEPT !.omit = B(o.b),
                               !.ord = IF o.i # 0 THEN LessOrder(o.i) ELSE SeqOrder(o.ks),
                               !.nan = IF o.nt = 0 THEN Nothing.nan
                                       ELSE [k |-> o.nt, s |-> IF o.nt = 2 THEN <<>> ELSE o.ns],
                               !.inf = IF o.it = 0 THEN Nothing.inf
                                       ELSE [k |-> o.it, s |-> IF o.it = 2 THEN <<>> ELSE o.ip,
                                             s2 |-> IF o.it = 3 THEN o.in ELSE <<>>]]
Settings(defaults, call) == FoldLeft(Merge, FoldLeft(Merge, Nothing, defaults), call)

(* ----------------------- NaN and infinity policies --------------------- *)
DefStr(s, d) == IF s = <<>> THEN d ELSE s
TrimPlus(s) == IF \A i \in 1..Len(s) : s[i] = 43 THEN <<>>
               ELSE SubSeq(s, CHOOSE i \in 1..Len(s) : s[i] # 43 /\ \A j \in 1..(i-1) : s[j] = 43, Len(s))
Negate(lit) == IF lit[1] = 45 THEN Tail(lit) ELSE <<45>> \o lit
(* A number that only has to be numerically right is marked by a leading 0   *)
Loosely(lit) == NumNode(<<0>> \o lit)
Bad == Node(9, <<>>, <<>>, <<>>)            \* must make Marshal fail
Special(S, lit) ==
    IF lit = LitNaN
    THEN CASE S.nan.k = 1 -> IF NonFinite(S.nan.s) THEN Bad ELSE Loosely(S.nan.s)
           [] S.nan.k = 2 -> NullNode
           [] S.nan.k = 3 -> StrNode(DefStr(S.nan.s, LitNaN))
           [] OTHER -> Bad
    ELSE LET neg == lit = LitNInf
         IN CASE S.inf.k = 1 -> IF NonFinite(S.inf.s) THEN Bad
                                ELSE Loosely(IF neg THEN Negate(S.inf.s) ELSE S.inf.s)
              [] S.inf.k = 2 -> NullNode
              [] S.inf.k = 3 -> StrNode(IF ~neg THEN DefStr(S.inf.s, LitPInf)
                                        ELSE IF S.inf.s2 # <<>> THEN S.inf.s2
                                        ELSE IF S.inf.s # <<>> THEN <<45>> \o TrimPlus(S.inf.s)
                                        ELSE LitNInf)
              [] OTHER -> Bad

RECURSIVE HasNonFinite(_)
HasNonFinite(n) == IF n.t = TNum THEN NonFinite(n.s) ELSE \E i \in 1..Len(n.e) : HasNonFinite(n.e[i])

(* ------------------------------ key order ------------------------------ *)
(* The less functions the driver installs, by number                        *)
LessKey(i, depth, k1, v1, k2, v2) ==
    CASE i = 1 -> LexLT(k1, k2)
      [] i = 2 -> LexLT(k2, k1)
      [] i = 3 -> Len(k1) < Len(k2) \/ (Len(k1) = Len(k2) /\ LexLT(k1, k2))
      [] i = 4 -> v1.t < v2.t \/ (v1.t = v2.t /\ LexLT(k1, k2))
      [] OTHER -> IF (depth % 2) = 1 THEN LexLT(k2, k1) ELSE LexLT(k1, k2)
LessSeq(ks, k1, k2) ==
    LET a == IndexIn(ks, k1)   b == IndexIn(ks, k2)
    IN IF a # 0 /\ b # 0 THEN a < b ELSE IF a # 0 THEN TRUE ELSE IF b # 0 THEN FALSE ELSE LexLT(k1, k2)
(* positions of a node's members in the order they must be written          *)
KeyOrder(S, n, depth) ==
    LET ix == [i \in 1..Len(n.k) |-> i]
    IN CASE S.ord.k = "less" -> SortSeq(ix, LAMBDA p, q : LessKey(S.ord.i, depth, n.k[p], n.e[p], n.k[q], n.e[q]))
         [] S.ord.k = "seq" -> SortSeq(ix, LAMBDA p, q : LessSeq(S.ord.ks, n.k[p], n.k[q]))
         [] OTHER -> ix

(* ------------------------- the tree to be written ----------------------- *)
RECURSIVE Expect(_, _, _)
Expect(S, n, depth) ==
    CASE n.t = TNum -> IF NonFinite(n.s) THEN Special(S, n.s) ELSE n
      [] n.t = TArr -> ArrNode([i \in 1..Len(n.e) |-> Expect(S, n.e[i], depth + 1)])
      [] n.t = TObj ->
           LET ix == SelectSeq(KeyOrder(S, n, depth), LAMBDA j : ~(S.omit /\ n.e[j].t = TNull))
           IN ObjNode([i \in 1..Len(ix) |-> Mend(n.k[ix[i]])], [i \in 1..Len(ix) |-> Expect(S, n.e[ix[i]], depth + 1)])
      [] n.t = TStr -> StrNode(Mend(n.s))
      [] OTHER -> n
RECURSIVE Mended(_)      \* does every string stand for itself?
Mended(n) == /\ n.t = TStr => ValidUtf8(n.s)
             /\ \A i \in 1..Len(n.k) : ValidUtf8(n.k[i])
             /\ \A i \in 1..Len(n.e) : Mended(n.e[i])
RECURSIVE HasBad(_)
HasBad(n) == n.t = 9 \/ \E i \in 1..Len(n.e) : HasBad(n.e[i])

(* does tree o match expectation x; in order, or regardless of key order     *)
RECURSIVE Match(_, _, _)
Match(x, o, ordered) ==
    /\ x.t = o.t
    /\ IF x.t = TNum /\ x.s[1] = 0 THEN CmpLit(Tail(x.s), o.s) = 0
       ELSE IF x.t = TObj
       THEN Len(x.k) = Len(o.k)
            /\ IF ordered THEN x.k = o.k /\ \A i \in 1..Len(x.e) : Match(x.e[i], o.e[i], TRUE)
               ELSE \A i \in 1..Len(x.k) : LET j == IndexIn(o.k, x.k[i]) IN j # 0 /\ Match(x.e[i], o.e[j], FALSE)
       ELSE x.s = o.s /\ Len(x.e) = Len(o.e) /\ \A i \in 1..Len(x.e) : Match(x.e[i], o.e[i], ordered)
(* the same with every string (and key) made alike                          *)
RECURSIVE Mask(_)
Mask(n) == CASE n.t = TStr -> StrNode(<<>>)
             [] n.t = TObj -> ArrNode([i \in 1..Len(n.e) |-> Mask(n.e[i])])
             [] OTHER -> [n EXCEPT !.e = [i \in 1..Len(n.e) |-> Mask(n.e[i])]]

(* -------------------------------- tokens ------------------------------- *)
(* An output as tokens <<text, white space before it>>                      *)
Structure(c) == c \in {123, 125, 91, 93, 44, 58}
TokStep(st, c) ==       \* st: toks, w (blanks), cur, m: 0 outside, 1 in string, 2 after backslash, 3 in a bare word
    LET flush == IF st.m = 3 THEN [st EXCEPT !.toks = Append(st.toks, [x |-> st.cur, w |-> st.w]), !.w = <<>>, !.cur = <<>>, !.m = 0]
                 ELSE st
    IN CASE st.m = 1 -> IF c = 34 THEN [st EXCEPT !.toks = Append(st.toks, [x |-> Append(st.cur, c), w |-> st.w]),
                                                  !.w = <<>>, !.cur = <<>>, !.m = 0]
                        ELSE [st EXCEPT !.cur = Append(st.cur, c), !.m = IF c = 92 THEN 2 ELSE 1]
         [] st.m = 2 -> [st EXCEPT !.cur = Append(st.cur, c), !.m = 1]
         [] Blank(c) -> [flush EXCEPT !.w = Append(flush.w, c)]
         [] c = 34 -> [flush EXCEPT !.cur = <<c>>, !.m = 1]
         [] Structure(c) -> [flush EXCEPT !.toks = Append(flush.toks, [x |-> <<c>>, w |-> flush.w]), !.w = <<>>]
         [] OTHER -> [st EXCEPT !.cur = Append(st.cur, c), !.m = 3]
Tokens(out) ==
    LET r == FoldLeft(TokStep, [toks |-> <<>>, w |-> <<>>, cur |-> <<>>, m |-> 0], out)
        last == IF r.m = 3 THEN Append(r.toks, [x |-> r.cur, w |-> r.w]) ELSE r.toks
    IN [toks |-> last, rest |-> IF r.m = 3 THEN <<>> ELSE r.w]

RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN <<>> ELSE s \o Times(s, n - 1)
NewLine(S, depth) == <<10>> \o S.ind.p \o Times(S.ind.i, depth)
Opens(x) == x \in {<<123>>, <<91>>}
Closes(x) == x \in {<<125>>, <<93>>}
(* white space before token i, which stands at depth d (containers open before it) *)
SpaceOK(S, prev, t, d) ==
    IF ~S.ind.on THEN t.w = <<>>
    ELSE IF prev = <<>> THEN t.w = <<>>
    ELSE IF Opens(prev) /\ Closes(t.x) THEN t.w \in {<<>>, NewLine(S, d - 1)}
    ELSE IF Closes(t.x) THEN t.w = NewLine(S, d - 1)
    ELSE IF Opens(prev) \/ prev = <<44>> THEN t.w = NewLine(S, d)
    ELSE IF prev = <<58>> THEN t.w = <<32>>
    ELSE t.w = <<>>
LayoutOK(S, tk) ==
    FoldLeft(LAMBDA st, t : [ok |-> st.ok /\ SpaceOK(S, st.prev, t, st.d), prev |-> t.x,
                             d |-> IF Opens(t.x) THEN st.d + 1 ELSE IF Closes(t.x) THEN st.d - 1 ELSE st.d],
             [ok |-> TRUE, prev |-> <<>>, d |-> 0], tk.toks).ok /\ tk.rest = <<>>

(* ----------------------------- escape forms ----------------------------- *)
Control(c) == c < 32 \/ c = 127
(* must c be written escaped? *)
MustEscape(S, c) ==
    IF c < 128 THEN Control(c) \/ c \in {34, 92} \/ (c = 47 /\ S.slash) \/ (c \in {60, 62, 38} /\ S.html)
    ELSE ~S.utf8 \/ c \in {8232, 8233}
(* one raw string token: state <<ok, mode, value, count>>; 0 plain, 1 after a
   backslash, 2 in \u, 3 in a UTF-8 sequence; lone surrogate halves are seen
   one at a time and always >= 128                                          *)
EscStep(S, st, c) ==
    CASE st[2] = 1 -> IF c = 117 THEN <<st[1], 2, 0, 4>>
                      ELSE LET v == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
                           IN <<st[1] /\ MustEscape(S, v), 0, 0, 0>>
      [] st[2] = 2 -> LET v == st[3] * 16 + HexVal(c)
                      IN IF st[4] > 1 THEN <<st[1], 2, v, st[4] - 1>>
                         ELSE <<st[1] /\ (MustEscape(S, v) \/ (v >= 55296 /\ v <= 57343 /\ ~S.utf8)), 0, 0, 0>>
      [] st[2] = 3 -> LET v == st[3] * 64 + (c - 128)
                      IN IF st[4] > 1 THEN <<st[1], 3, v, st[4] - 1>>
                         ELSE <<st[1] /\ ~MustEscape(S, v), 0, 0, 0>>
      [] OTHER -> IF c = 92 THEN <<st[1], 1, 0, 0>>
                  ELSE IF c < 128 THEN <<st[1] /\ ~MustEscape(S, c), 0, 0, 0>>
                  ELSE IF c < 224 THEN <<st[1], 3, c - 192, 1>>
                  ELSE IF c < 240 THEN <<st[1], 3, c - 224, 2>>
                  ELSE <<st[1], 3, c - 240, 3>>
EscapesOK(S, raw) ==      \* raw: a string token with its quotes
    FoldLeft(LAMBDA st, c : EscStep(S, st, c), <<TRUE, 0, 0, 0>>, SubSeq(raw, 2, Len(raw) - 1))[1]

(* -------------------------- a reference marshaler ----------------------- *)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Unit(u) == <<92, 117, HexDigit(u \div 4096), HexDigit((u \div 256) % 16), HexDigit((u \div 16) % 16), HexDigit(u % 16)>>
EscChar(S, c) ==
    IF ~MustEscape(S, c) THEN Utf8Of(c)
    ELSE CASE c \in {34, 92, 47} -> <<92, c>>
           [] c = 8 -> <<92, 98>>  [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
           [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
           [] c < 65536 -> Unit(c)
           [] OTHER -> Unit(55296 + ((c - 65536) \div 1024)) \o Unit(56320 + ((c - 65536) % 1024))
SerStr(S, s) == <<34>> \o FoldLeft(LAMBDA acc, c : acc \o EscChar(S, c), <<>>, CodePoints(s)) \o <<34>>
RECURSIVE Ser(_, _, _)
SerItems(S, items, d, open, close) ==      \* items: finished texts
    IF items = <<>> THEN <<open, close>>
    ELSE <<open>> \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE <<44>>)
                                 \o (IF S.ind.on THEN NewLine(S, d + 1) ELSE <<>>) \o items[i],
                              <<>>, [i \in 1..Len(items) |-> i])
         \o (IF S.ind.on THEN NewLine(S, d) ELSE <<>>) \o <<close>>
Ser(S, x, d) ==      \* x: a tree from Expect without Bad
    CASE x.t = TStr -> SerStr(S, x.s)
      [] x.t = TNum -> IF x.s[1] = 0 THEN Tail(x.s) ELSE x.s
      [] x.t = TBool -> IF x.s = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
      [] x.t = TArr -> SerItems(S, [i \in 1..Len(x.e) |-> Ser(S, x.e[i], d + 1)], d, 91, 93)
      [] x.t = TObj -> SerItems(S, [i \in 1..Len(x.e) |-> SerStr(S, x.k[i]) \o <<58>>
                                       \o (IF S.ind.on THEN <<32>> ELSE <<>>) \o Ser(S, x.e[i], d + 1)], d, 123, 125)
      [] OTHER -> <<110, 117, 108, 108>>

(* ------------------------------- verdict ------------------------------- *)
(* problems of an output; S settings, n the value's tree                     *)
OutputProblems(S, n, err, out) ==
    LET x == Expect(S, n, 0)
    IN IF n.t = TNot THEN (IF err = 0 \/ out # <<>> THEN {<<"C04", "NotExist marshaled">>} ELSE {})
       ELSE IF HasBad(x)
       THEN IF err = 0 \/ out # <<>> THEN {<<"C08", "NaN or Inf marshaled silently">>} ELSE {}
       ELSE IF err # 0
       THEN IF HasNonFinite(n) THEN {<<"C08", "converted NaN or Inf still fails">>} ELSE {<<"C04", "marshaling fails">>}
       ELSE LET j == Judge(out)
            IN IF j.v # "acc" \/ j.dup
               THEN {<<"C04", "output is not JSON">>}
                    \cup (IF HasNonFinite(n) THEN {<<"C08", "output is not JSON">>} ELSE {})
                    \cup (IF S.omit \/ S.ind.on THEN {<<"C07", "output is not JSON">>} ELSE {})
                    \cup (IF j.dup THEN {<<"C06", "key written twice">>} ELSE {<<"C05", "output is not JSON">>})
               ELSE LET tk == Tokens(out)
                        flip == Expect([S EXCEPT !.omit = ~S.omit], n, 0)
                    IN (IF ~Match(x, j.tree, FALSE)
                        THEN {<<"C04", "output denotes another tree">>}
                             \cup (IF Mask(j.tree) = Mask(Expect([S EXCEPT !.ord = NoOrder], n, 0)) \/ Mask(j.tree) = Mask(x)
                                   THEN {<<"C05", "a string changed">>} ELSE {})
                             \cup (IF S.omit \/ Match(flip, j.tree, FALSE) THEN {<<"C07", "nulls not dropped exactly">>} ELSE {})
                             \cup (IF S.ind.on THEN {<<"C07", "indentation changed the tokens">>} ELSE {})
                             \cup (IF HasNonFinite(n) THEN {<<"C08", "NaN or Inf written wrongly">>} ELSE {})
                             \cup (IF S.ord.k # "none" THEN {<<"C06", "keys and values do not belong together">>} ELSE {})
                        ELSE IF S.ord.k # "none" /\ ~Match(x, j.tree, TRUE)
                        THEN {<<"C06", "key order">>} ELSE {})
                       \cup (IF LayoutOK(S, tk) THEN {} ELSE {<<"C07", "layout">>})
                       \cup (IF \A i \in 1..Len(tk.toks) : tk.toks[i].x[1] # 34 \/ EscapesOK(S, tk.toks[i].x)
                             THEN {} ELSE {<<"C05", "escape form">>})
=============================================================================
