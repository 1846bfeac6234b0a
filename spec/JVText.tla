------------------------------- MODULE JVText -------------------------------
(***************************************************************************)
(* JSON text as a pushdown automaton over bytes: one step per byte.        *)
(* Running it over a text yields                                            *)
(*   m = EOK-like mode with a result tree  -> the text is JSON;             *)
(*   lax = TRUE  -> it is accepted only thanks to one of the parser's known *)
(*        leniencies (named below), so either verdict is allowed;           *)
(*   m = MErr    -> it is not JSON, even leniently: it must be refused.     *)
(*                                                                         *)
(* Leniencies: missing/redundant commas inside containers, backspace as     *)
(* a blank, the escape \', raw control characters in strings, surrogate     *)
(* escapes that do not form a pair.                                         *)
(***************************************************************************)
EXTENDS JVNumber

MErr == 0     \* dead
MVal == 1     \* a value must follow (top level or after a colon)
MArr0 == 2    \* after '['
MArrV == 3    \* after ',' in an array
MObj0 == 4    \* after '{'
MObjK == 5    \* after ',' in an object
MCol == 6     \* after a key
MAft == 7     \* after a member or element
MEnd == 8     \* after the top value
MStr == 9     \* inside a string
MEsc == 10    \* after a backslash
MUni == 11    \* inside the four hex digits of \u
MLit == 12    \* inside true, false, null
MNum == 20    \* 20 + number automaton mode

(* state: m mode, st stack of frames, buf bytes collected for the current
   token, key TRUE if the current string is a key, aux remaining literal or
   hex progress <<count, value>>, hi pending high surrogate (0 none),
   lax, res top value, out TRUE if a number literal was out of range,
   dup TRUE if an object repeated a key                                     *)
Start == [m |-> MVal, st |-> <<>>, buf |-> <<>>, key |-> FALSE, aux |-> <<0, 0>>,
          lit |-> <<>>, hi |-> 0, lax |-> FALSE, res |-> NoNode, out |-> FALSE,
          dup |-> FALSE]

Frame(obj) == [o |-> obj, k |-> <<>>, e |-> <<>>, pk |-> <<>>]

Blank(c) == c \in {32, 9, 10, 13}
Dead(s) == [s EXCEPT !.m = MErr]

(* a complete value has been read *)
Emit(s, v) ==
    IF s.st = <<>> THEN [s EXCEPT !.m = MEnd, !.res = v, !.buf = <<>>]
    ELSE LET n == Len(s.st)
             f == s.st[n]
         IN [s EXCEPT !.m = MAft, !.buf = <<>>,
                      !.st[n] = IF f.o
                                THEN [f EXCEPT !.k = Append(f.k, f.pk), !.e = Append(f.e, v)]
                                ELSE [f EXCEPT !.e = Append(f.e, v)]]

Pop(s) == LET n == Len(s.st)
              f == s.st[n]
              d == f.o /\ Cardinality({f.k[i] : i \in 1..Len(f.k)}) # Len(f.k)
              r == [s EXCEPT !.st = SubSeq(s.st, 1, n - 1), !.dup = s.dup \/ d]
          IN Emit(r, IF f.o THEN DedupObj(f.k, f.e) ELSE ArrNode(f.e))

StartValue(s, c) ==
    CASE c = 123 -> [s EXCEPT !.m = MObj0, !.st = Append(s.st, Frame(TRUE))]
      [] c = 91  -> [s EXCEPT !.m = MArr0, !.st = Append(s.st, Frame(FALSE))]
      [] c = 34  -> [s EXCEPT !.m = MStr, !.buf = <<>>, !.key = FALSE]
      [] c = 116 -> [s EXCEPT !.m = MLit, !.lit = <<114, 117, 101>>, !.aux = <<1, 0>>]
      [] c = 102 -> [s EXCEPT !.m = MLit, !.lit = <<97, 108, 115, 101>>, !.aux = <<2, 0>>]
      [] c = 110 -> [s EXCEPT !.m = MLit, !.lit = <<117, 108, 108>>, !.aux = <<3, 0>>]
      [] c = 45 \/ IsDigit(c) -> [s EXCEPT !.m = MNum + NumStep(1, c), !.buf = <<c>>]
      [] OTHER -> Dead(s)
StartKey(s) == [s EXCEPT !.m = MStr, !.buf = <<>>, !.key = TRUE]
Laxly(s) == [s EXCEPT !.lax = TRUE]

HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

(* anything but \u after a pending high surrogate leaves it unpaired *)
NoHi(s) == IF s.hi = 0 THEN s ELSE [s EXCEPT !.hi = 0, !.lax = TRUE]

InStr(s0, c) ==
    IF c = 92 THEN [s0 EXCEPT !.m = MEsc]
    ELSE LET s == NoHi(s0) IN
    IF c = 34
    THEN IF s.key THEN [s EXCEPT !.m = MCol, !.st[Len(s.st)].pk = s.buf, !.buf = <<>>]
         ELSE Emit(s, StrNode(s.buf))
    ELSE IF c < 32 THEN [Laxly(s) EXCEPT !.buf = Append(s.buf, c)]
    ELSE [s EXCEPT !.buf = Append(s.buf, c)]

InEsc(s0, c) ==
    IF c = 117 THEN [s0 EXCEPT !.m = MUni, !.aux = <<0, 0>>]
    ELSE LET s == NoHi(s0)
             put(b) == [s EXCEPT !.m = MStr, !.buf = Append(s.buf, b)]
         IN CASE c \in {34, 92, 47} -> put(c)
              [] c = 98 -> put(8)   [] c = 102 -> put(12)  [] c = 110 -> put(10)
              [] c = 114 -> put(13) [] c = 116 -> put(9)
              [] c = 39 -> Laxly(put(39))
              [] OTHER -> Dead(s)

InUni(s, c) ==
    LET h == HexVal(c)
        n == s.aux[1] + 1
        v == s.aux[2] * 16 + h
    IN IF h < 0 THEN Dead(s)
       ELSE IF n < 4 THEN [s EXCEPT !.aux = <<n, v>>]
       ELSE IF v >= 55296 /\ v <= 56319         \* high surrogate
            THEN [NoHi(s) EXCEPT !.m = MStr, !.hi = v]
       ELSE IF v >= 56320 /\ v <= 57343         \* low surrogate
            THEN IF s.hi = 0 THEN [Laxly(s) EXCEPT !.m = MStr]
                 ELSE [s EXCEPT !.m = MStr, !.hi = 0,
                          !.buf = s.buf \o Utf8Of(65536 + (s.hi - 55296) * 1024 + (v - 56320))]
       ELSE [NoHi(s) EXCEPT !.m = MStr, !.buf = s.buf \o Utf8Of(v)]

InLit(s, c) ==
    IF s.lit[1] # c THEN Dead(s)
    ELSE IF Len(s.lit) > 1 THEN [s EXCEPT !.lit = Tail(s.lit)]
    ELSE Emit(s, CASE s.aux[1] = 1 -> BoolNode(1) [] s.aux[1] = 2 -> BoolNode(0)
                   [] OTHER -> NullNode)

EndNum(s) ==
    IF s.m - MNum \notin {3, 4, 6, 9} THEN Dead(s)
    ELSE IF ~NumAccepted(s.buf) THEN [Dead(s) EXCEPT !.out = TRUE]
    ELSE Emit(s, NumNode(s.buf))

Structural(s, c) ==
    IF Blank(c) THEN s
    ELSE IF c = 8 THEN Laxly(s)
    ELSE LET top == IF s.st = <<>> THEN Frame(FALSE) ELSE s.st[Len(s.st)] IN
    CASE s.m = MVal  -> StartValue(s, c)
      [] s.m = MArr0 -> IF c = 93 THEN Pop(s)
                        ELSE IF c = 44 THEN [Laxly(s) EXCEPT !.m = MArrV]
                        ELSE StartValue(s, c)
      [] s.m = MArrV -> IF c = 93 THEN Laxly(Pop(s))
                        ELSE IF c = 44 THEN Laxly(s)
                        ELSE StartValue(s, c)
      [] s.m = MObj0 -> IF c = 125 THEN Pop(s)
                        ELSE IF c = 44 THEN [Laxly(s) EXCEPT !.m = MObjK]
                        ELSE IF c = 34 THEN StartKey(s) ELSE Dead(s)
      [] s.m = MObjK -> IF c = 125 THEN Laxly(Pop(s))
                        ELSE IF c = 44 THEN Laxly(s)
                        ELSE IF c = 34 THEN StartKey(s) ELSE Dead(s)
      [] s.m = MCol  -> IF c = 58 THEN [s EXCEPT !.m = MVal] ELSE Dead(s)
      [] s.m = MAft  -> IF top.o
                        THEN IF c = 125 THEN Pop(s)
                             ELSE IF c = 44 THEN [s EXCEPT !.m = MObjK]
                             ELSE IF c = 34 THEN Laxly(StartKey(s)) ELSE Dead(s)
                        ELSE IF c = 93 THEN Pop(s)
                             ELSE IF c = 44 THEN [s EXCEPT !.m = MArrV]
                             ELSE Laxly(StartValue(s, c))
      [] OTHER -> Dead(s)            \* MEnd: trailing data

Step(s, c) ==
    IF s.m = MErr THEN s
    ELSE IF s.m = MStr THEN InStr(s, c)
    ELSE IF s.m < MStr THEN Structural(s, c)
    ELSE IF s.m = MEsc THEN InEsc(s, c)
    ELSE IF s.m = MUni THEN InUni(s, c)
    ELSE IF s.m = MLit THEN InLit(s, c)
    ELSE IF IsNumChar(c) THEN [s EXCEPT !.m = LET x == NumStep(s.m - MNum, c)
                                              IN IF x = 0 THEN MErr ELSE MNum + x,
                                        !.buf = Append(s.buf, c)]
    ELSE LET f == EndNum(s) IN IF f.m = MErr THEN f ELSE Structural(f, c)

Finish(s) == LET f == IF s.m >= MNum THEN EndNum(s) ELSE s
             IN IF f.m = MEnd THEN f ELSE Dead(f)

Run(text) == Finish(FoldLeft(Step, Start, text))

(* Verdict: "acc" must be accepted with exactly this tree, "ref" must be
   refused, "free" either                                                   *)
Judge(text) ==
    IF ~ValidUtf8(text) THEN [v |-> "free", tree |-> NoNode, out |-> FALSE, dup |-> FALSE]
    ELSE LET r == Run(text)
         IN [v |-> IF r.m = MErr THEN "ref" ELSE IF r.lax THEN "free" ELSE "acc",
             tree |-> r.res, out |-> r.out, dup |-> r.dup]
WellFormed(text) == Judge(text).v = "acc"
=============================================================================
