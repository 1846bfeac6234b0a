------------------------------- MODULE JVBase -------------------------------
(***************************************************************************)
(* Shared vocabulary of the go.jsonvalue specification.                    *)
(*                                                                         *)
(* A JSON value is a tree of records                                       *)
(*    [t |-> type, s |-> text, k |-> keys, e |-> children]                 *)
(* with t the ValueType of the library (0 not exist, 1 string, 2 number,   *)
(* 3 object, 4 array, 5 boolean, 6 null), s the UTF-8 bytes of a string,   *)
(* the literal of a number ("NaN", "+Inf", "-Inf" for non-finite ones) or  *)
(* <<1>>/<<0>> of a boolean, and k/e the keys (UTF-8 bytes, in set order)  *)
(* and children of a container.  All four fields have the same type in     *)
(* every node, so trees can be compared with "=".                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

TNot == 0   TStr == 1   TNum == 2   TObj == 3   TArr == 4   TBool == 5   TNull == 6

Node(t, s, k, e) == [t |-> t, s |-> s, k |-> k, e |-> e]
StrNode(s)  == Node(TStr, s, <<>>, <<>>)
NumNode(s)  == Node(TNum, s, <<>>, <<>>)
BoolNode(b) == Node(TBool, <<b>>, <<>>, <<>>)
NullNode    == Node(TNull, <<>>, <<>>, <<>>)
ObjNode(k, e) == Node(TObj, <<>>, k, e)
ArrNode(e)    == Node(TArr, <<>>, <<>>, e)
NoNode      == Node(TNot, <<>>, <<>>, <<>>)

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

(* Lexicographic order on byte sequences: the order of Go strings.         *)
RECURSIVE LexLTFrom(_, _, _)
LexLTFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] < b[i] THEN TRUE
    ELSE IF a[i] > b[i] THEN FALSE
    ELSE LexLTFrom(a, b, i + 1)
LexLT(a, b) == LexLTFrom(a, b, 1)

IndexIn(seq, x) ==      \* position of x in seq, 0 if absent
    IF \E i \in 1..Len(seq) : seq[i] = x
    THEN CHOOSE i \in 1..Len(seq) : seq[i] = x /\ \A j \in 1..(i-1) : seq[j] # x
    ELSE 0

Without(seq, i) == SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
InsertSeq(seq, i, x) == SubSeq(seq, 1, i - 1) \o <<x>> \o SubSeq(seq, i, Len(seq))

(* Keys of an object after the last-one-wins rule, in order of the last set *)
DedupIdx(k) == SelectSeq([i \in 1..Len(k) |-> i],
                         LAMBDA i : \A j \in (i+1)..Len(k) : k[j] # k[i])
DedupObj(k, e) ==
    IF Len(k) < 2 THEN ObjNode(k, e)
    ELSE IF Cardinality({k[i] : i \in 1..Len(k)}) = Len(k) THEN ObjNode(k, e)
    ELSE LET ix == DedupIdx(k)
         IN  ObjNode([i \in 1..Len(ix) |-> k[ix[i]]], [i \in 1..Len(ix) |-> e[ix[i]]])

(* ------------------------------- Unicode ------------------------------- *)
Utf8Of(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
    ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64),
            128 + ((c \div 64) % 64), 128 + (c % 64) >>

(* Well-formed UTF-8 (Unicode table 3-7): a fold whose state is <<remaining
   continuation bytes, lowest, highest allowed next byte>>, <<-1,..>> = bad. *)
Utf8Step(st, b) ==
    IF st[1] = -1 THEN st
    ELSE IF st[1] = 0
    THEN IF b < 128 THEN st
         ELSE IF b >= 194 /\ b <= 223 THEN <<1, 128, 191>>
         ELSE IF b = 224 THEN <<2, 160, 191>>
         ELSE IF b = 237 THEN <<2, 128, 159>>
         ELSE IF b >= 225 /\ b <= 239 THEN <<2, 128, 191>>
         ELSE IF b = 240 THEN <<3, 144, 191>>
         ELSE IF b = 244 THEN <<3, 128, 143>>
         ELSE IF b >= 241 /\ b <= 243 THEN <<3, 128, 191>>
         ELSE <<-1, 0, 0>>
    ELSE IF b >= st[2] /\ b <= st[3] THEN <<st[1] - 1, 128, 191>>
    ELSE <<-1, 0, 0>>
ValidUtf8(bs) == FoldLeft(Utf8Step, <<0, 128, 191>>, bs)[1] = 0

(* Any bytes read as UTF-8: a byte that is not part of a well-formed sequence
   counts as U+FFFD.                                                         *)
SeqLen(b) == IF b >= 194 /\ b <= 223 THEN 2 ELSE IF b >= 224 /\ b <= 239 THEN 3 ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 1
RECURSIVE MendFrom(_, _)
MendFrom(bs, i) ==
    IF i > Len(bs) THEN <<>>
    ELSE LET j == i + SeqLen(bs[i]) - 1
             part == SubSeq(bs, i, j)
         IN IF j <= Len(bs) /\ ValidUtf8(part) THEN part \o MendFrom(bs, j + 1)
            ELSE <<239, 191, 189>> \o MendFrom(bs, i + 1)
Mend(bs) == IF ValidUtf8(bs) THEN bs ELSE MendFrom(bs, 1)

(* Code points of a well-formed UTF-8 sequence.                             *)
CpStep(st, b) ==     \* st = <<code points so far, pending value, pending count>>
    IF st[3] = 0
    THEN IF b < 128 THEN <<Append(st[1], b), 0, 0>>
         ELSE IF b < 224 THEN <<st[1], b - 192, 1>>
         ELSE IF b < 240 THEN <<st[1], b - 224, 2>>
         ELSE <<st[1], b - 240, 3>>
    ELSE LET v == st[2] * 64 + (b - 128)
         IN IF st[3] = 1 THEN <<Append(st[1], v), 0, 0>> ELSE <<st[1], v, st[3] - 1>>
CodePoints(bs) == FoldLeft(CpStep, << <<>>, 0, 0 >>, bs)[1]

(* Simple lower-case mapping of the alphabets the drivers use in keys:
   ASCII, Latin-1, Greek, Cyrillic (as Go's strings.ToLower).               *)
LowerCp(c) ==
    IF c >= 65 /\ c <= 90 THEN c + 32
    ELSE IF c >= 192 /\ c <= 222 /\ c # 215 THEN c + 32
    ELSE IF c >= 913 /\ c <= 939 /\ c # 930 THEN c + 32
    ELSE IF c >= 1040 /\ c <= 1071 THEN c + 32
    ELSE IF c >= 1024 /\ c <= 1039 THEN c + 80
    ELSE IF c = 8490 THEN 107          \* KELVIN SIGN -> k
    ELSE c
Lower(cps) == [i \in 1..Len(cps) |-> LowerCp(cps[i])]
=============================================================================
