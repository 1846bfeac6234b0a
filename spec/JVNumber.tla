------------------------------ MODULE JVNumber ------------------------------
(***************************************************************************)
(* Decimal numbers as text.  A JSON number literal denotes                 *)
(*    (-1)^neg * 0.d1 d2 ... dn * 10^exp      (d1 # 0, dn # 0; n = 0: zero) *)
(* so two literals are compared exactly, whatever their length, sign or    *)
(* exponent; no machine arithmetic on the value is involved.               *)
(***************************************************************************)
EXTENDS JVBase

IsDigit(c) == c >= 48 /\ c <= 57
IsNumChar(c) == IsDigit(c) \/ c \in {43, 45, 46, 69, 101}    \* + - . E e

(* Grammar of RFC 8259 numbers as an automaton.
   1 start, 2 after '-', 3 after leading 0, 4 in integer, 5 after '.',
   6 in fraction, 7 after e, 8 after e sign, 9 in exponent, 0 error         *)
NumStep(m, c) ==
    CASE m = 1 -> IF c = 45 THEN 2 ELSE IF c = 48 THEN 3 ELSE IF IsDigit(c) THEN 4 ELSE 0
      [] m = 2 -> IF c = 48 THEN 3 ELSE IF IsDigit(c) THEN 4 ELSE 0
      [] m = 3 -> IF c = 46 THEN 5 ELSE IF c \in {69, 101} THEN 7 ELSE 0
      [] m = 4 -> IF IsDigit(c) THEN 4 ELSE IF c = 46 THEN 5 ELSE IF c \in {69, 101} THEN 7 ELSE 0
      [] m = 5 -> IF IsDigit(c) THEN 6 ELSE 0
      [] m = 6 -> IF IsDigit(c) THEN 6 ELSE IF c \in {69, 101} THEN 7 ELSE 0
      [] m = 7 -> IF c \in {43, 45} THEN 8 ELSE IF IsDigit(c) THEN 9 ELSE 0
      [] m = 8 -> IF IsDigit(c) THEN 9 ELSE 0
      [] m = 9 -> IF IsDigit(c) THEN 9 ELSE 0
      [] OTHER -> 0
NumMode(lit) == FoldLeft(NumStep, 1, lit)
NumGrammar(lit) == NumMode(lit) \in {3, 4, 6, 9}
NumIsInt(lit) == NumMode(lit) \in {3, 4}

StripLead(d) ==
    IF d = <<>> \/ d[1] # 48 THEN d
    ELSE IF \A i \in 1..Len(d) : d[i] = 48 THEN <<>>
    ELSE SubSeq(d, CHOOSE i \in 1..Len(d) : d[i] # 48 /\ \A j \in 1..(i-1) : d[j] = 48, Len(d))
StripTail(d) ==
    IF d = <<>> \/ d[Len(d)] # 48 THEN d
    ELSE IF \A i \in 1..Len(d) : d[i] = 48 THEN <<>>
    ELSE SubSeq(d, 1, CHOOSE i \in 1..Len(d) : d[i] # 48 /\ \A j \in (i+1)..Len(d) : d[j] = 48)

FirstOf(lit, S) ==      \* first index holding a character of S, Len+1 if none
    IF \E i \in 1..Len(lit) : lit[i] \in S
    THEN CHOOSE i \in 1..Len(lit) : lit[i] \in S /\ \A j \in 1..(i-1) : lit[j] \notin S
    ELSE Len(lit) + 1

(* e is capped: an exponent of more than 8 digits counts as 10^8 there.  The
   exact one is kept as text: xn (negative?), xs (its digits), and off, what
   has to be added to it.                                                     *)
DigitsVal(d) == LET s == StripLead(d) IN
    IF Len(s) > 8 THEN 100000000 ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)

Dec(lit) ==
    LET neg  == Len(lit) > 0 /\ lit[1] = 45
        body == IF neg THEN Tail(lit) ELSE lit
        ei   == FirstOf(body, {69, 101})
        mant == SubSeq(body, 1, ei - 1)
        exps == SubSeq(body, ei + 1, Len(body))
        eneg == Len(exps) > 0 /\ exps[1] = 45
        edig == IF Len(exps) > 0 /\ exps[1] \in {43, 45} THEN Tail(exps) ELSE exps
        ev   == IF eneg THEN 0 - DigitsVal(edig) ELSE DigitsVal(edig)
        di   == FirstOf(mant, {46})
        ip   == SubSeq(mant, 1, di - 1)
        fp   == SubSeq(mant, di + 1, Len(mant))
        all  == ip \o fp
        lead == Len(all) - Len(StripLead(all))
        d    == StripTail(StripLead(all))
    IN IF d = <<>> THEN [neg |-> FALSE, d |-> <<>>, e |-> 0, xn |-> FALSE, xs |-> <<>>, off |-> 0]
       ELSE [neg |-> neg, d |-> d, e |-> Len(ip) - lead + ev, xn |-> eneg, xs |-> StripLead(edig), off |-> Len(ip) - lead]

(* The exact exponent in base 10^8 (up to 24 digits), most significant first  *)
Exact(x) ==
    LET B == 100000000
        s == [i \in 1..(24 - Len(x.xs)) |-> 48] \o x.xs
        g(i) == LET v == DigitsVal(SubSeq(s, i, i + 7)) IN IF x.xn THEN 0 - v ELSE v
        c0 == g(17) + x.off
        c1 == g(9) + (c0 \div B)
    IN <<g(1) + (c1 \div B), c1 % B, c0 % B>>
Vast(x) == Len(x.xs) > 8 /\ Len(x.xs) <= 24
CmpExp(a, b) ==
    IF ~Vast(a) /\ ~Vast(b) THEN (IF a.e < b.e THEN -1 ELSE IF a.e > b.e THEN 1 ELSE 0)
    ELSE LET p == Exact(a)   q == Exact(b)
             i == IF p[1] # q[1] THEN 1 ELSE IF p[2] # q[2] THEN 2 ELSE 3
         IN IF p[i] < q[i] THEN -1 ELSE IF p[i] > q[i] THEN 1 ELSE 0

(* -1, 0, 1 on magnitudes *)
CmpMag(a, b) ==
    IF a.d = <<>> /\ b.d = <<>> THEN 0
    ELSE IF a.d = <<>> THEN -1
    ELSE IF b.d = <<>> THEN 1
    ELSE IF CmpExp(a, b) # 0 THEN CmpExp(a, b)
    ELSE IF a.d = b.d THEN 0
    ELSE IF LexLT(a.d, b.d) THEN -1 ELSE 1
CmpDec(a, b) ==
    IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
    ELSE IF a.neg THEN 0 - CmpMag(a, b) ELSE CmpMag(a, b)

(* Non-finite numbers are written NaN, +Inf, -Inf in traces.               *)
LitNaN  == <<78, 97, 78>>
LitPInf == <<43, 73, 110, 102>>
LitNInf == <<45, 73, 110, 102>>
NonFinite(lit) == lit \in {LitNaN, LitPInf, LitNInf}
(* 2 = unordered *)
CmpLit(a, b) ==
    IF a = LitNaN \/ b = LitNaN THEN 2
    ELSE IF a = b THEN 0
    ELSE IF a = LitPInf \/ b = LitNInf THEN 1
    ELSE IF a = LitNInf \/ b = LitPInf THEN -1
    ELSE CmpDec(Dec(a), Dec(b))
NumEqual(a, b) == (a = LitNaN /\ b = LitNaN) \/ CmpLit(a, b) = 0

Str(digits) == [i \in 1..Len(digits) |-> digits[i] + 48]
I64Max == Dec(Str(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>))
I64Min == [Dec(Str(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)) EXCEPT !.neg = TRUE]
U64Max == Dec(Str(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>))
Zero   == [neg |-> FALSE, d |-> <<>>, e |-> 0, xn |-> FALSE, xs |-> <<>>, off |-> 0]
InI64(lit) == LET x == Dec(lit) IN CmpDec(x, I64Min) >= 0 /\ CmpDec(x, I64Max) <= 0
InU64(lit) == LET x == Dec(lit) IN CmpDec(x, Zero) >= 0 /\ CmpDec(x, U64Max) <= 0

(* 2^1024 - 2^970: the smallest magnitude float64 rounding turns to infinity *)
FloatLimit == Dec(
  <<49,55,57,55,54,57,51,49,51,52,56,54,50,51,49,53,56,48,55,57,51,55,50,56,57,55,49,52,48,53,51,48,51,52,49,53,48,55,57,57,51,52,49,51,50,55,49,48,48,51,55,56,50,54,57,51,54,49,55,51,55,55,56,57,56,48,52,52,52,57,54,56,50,57,50,55,54,52,55,53,48,57,52,54,54,52,57,48,49,55,57,55,55,53,56,55,50,48,55,48,57,54,51,51,48,50,56,54,52,49,54,54,57,50,56,56,55,57,49,48,57,52,54,53,53,53,53,52,55,56,53,49,57,52,48,52,48,50,54,51,48,54,53,55,52,56,56,54,55,49,53,48,53,56,50,48,54,56,49,57,48,56,57,48,50,48,48,48,55,48,56,51,56,51,54,55,54,50,55,51,56,53,52,56,52,53,56,49,55,55,49,49,53,51,49,55,54,52,52,55,53,55,51,48,50,55,48,48,54,57,56,53,53,53,55,49,51,54,54,57,53,57,54,50,50,56,52,50,57,49,52,56,49,57,56,54,48,56,51,52,57,51,54,52,55,53,50,57,50,55,49,57,48,55,52,49,54,56,52,52,52,51,54,53,53,49,48,55,48,52,51,52,50,55,49,49,53,53,57,54,57,57,53,48,56,48,57,51,48,52,50,56,56,48,49,55,55,57,48,52,49,55,52,52,57,55,55,57,50>>)
FloatFinite(lit) == CmpMag(Dec(lit), FloatLimit) < 0

(* What the library must do with a literal that satisfies the grammar       *)
NumAccepted(lit) ==
    IF NumIsInt(lit) THEN InI64(lit) \/ InU64(lit) ELSE FloatFinite(lit)
=============================================================================
