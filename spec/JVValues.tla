------------------------------- MODULE JVValues -------------------------------
(***************************************************************************)
(* Values seen from outside: comparison, the subset relation, typed access, *)
(* and Base64.                                                              *)
(***************************************************************************)
EXTENDS JVDoc

(* ------------------------------ comparison ----------------------------- *)
Bit(b) == IF b THEN 1 ELSE 0
Comparison(a, b) ==
    LET num == a.t = TNum /\ b.t = TNum
        c == IF num THEN CmpLit(a.s, b.s) ELSE 2
    IN [lt |-> Bit(c = -1), le |-> Bit(c \in {-1, 0}), gt |-> Bit(c = 1), ge |-> Bit(c \in {0, 1})]

(* ------------------------------- Contains ------------------------------ *)
RECURSIVE Contained(_, _)
Contained(v, sub) ==      \* v contains sub
    /\ v.t = sub.t
    /\ CASE v.t = TObj -> \A i \in 1..Len(sub.k) :
                             LET j == IndexIn(v.k, sub.k[i]) IN j # 0 /\ Contained(v.e[j], sub.e[i])
         [] v.t = TArr -> \E o \in 0..(Len(v.e) - Len(sub.e)) :
                             \A i \in 1..Len(sub.e) : EqTree(v.e[o + i], sub.e[i])
         [] OTHER -> EqTree(v, sub)
ContainsAt(v, sub, path) ==
    LET h == Alloc(<<>>, v)
        r == Resolve(h, 1, path)
    IN r.id # 0 /\ sub.t # TNot /\ Contained(TreeOf(h, r.id), sub)

(* ----------------------- numbers inside strings ------------------------ *)
(* white space as Go's bytes.TrimSpace sees it: the Unicode White_Space set  *)
Space1(c) == c \in {9, 10, 11, 12, 13, 32}
Space2(a, b) == a = 194 /\ b \in {133, 160}                       \* U+0085 U+00A0
Space3(a, b, c) == \/ a = 225 /\ b = 154 /\ c = 128              \* U+1680
                   \/ a = 226 /\ b = 128 /\ (c \in 128..138 \/ c \in {168, 169, 175})
                   \/ a = 226 /\ b = 129 /\ c = 159              \* U+205F
                   \/ a = 227 /\ b = 128 /\ c = 128              \* U+3000
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == LET n == Len(s) IN
            IF n = 0 THEN s
            ELSE IF Space1(s[1]) THEN TrimL(Tail(s))
            ELSE IF n > 1 /\ Space2(s[1], s[2]) THEN TrimL(SubSeq(s, 3, n))
            ELSE IF n > 2 /\ Space3(s[1], s[2], s[3]) THEN TrimL(SubSeq(s, 4, n)) ELSE s
TrimR(s) == LET n == Len(s) IN
            IF n = 0 THEN s
            ELSE IF Space1(s[n]) THEN TrimR(SubSeq(s, 1, n - 1))
            ELSE IF n > 1 /\ Space2(s[n - 1], s[n]) THEN TrimR(SubSeq(s, 1, n - 2))
            ELSE IF n > 2 /\ Space3(s[n - 2], s[n - 1], s[n]) THEN TrimR(SubSeq(s, 1, n - 3)) ELSE s
Trim(s) == TrimR(TrimL(s))
Denotes(s) == LET t == Trim(s) IN NumGrammar(t) /\ NumAccepted(t)
NoLit == <<48>>

(* the literal a value converts to as a number                              *)
AsLit(n) == IF n.t = TNum THEN n.s ELSE IF n.t = TStr /\ Denotes(n.s) THEN Trim(n.s) ELSE NoLit
(* error class of a numeric getter: 0 none, 3 ErrTypeNotMatch, 4 ErrParseNumberFromString *)
NumErr(n) == IF n.t = TNum THEN 0 ELSE IF n.t = TStr /\ ~Denotes(n.s) THEN 4 ELSE 3

(* Integer part of a decimal, as decimal                                    *)
Truncated(x) == IF x.d = <<>> \/ x.e <= 0 THEN Zero
                ELSE IF x.e >= Len(x.d) THEN x
                ELSE [x EXCEPT !.d = StripTail(SubSeq(x.d, 1, x.e))]
Between(x, lo, hi) == CmpDec(x, lo) >= 0 /\ CmpDec(x, hi) <= 0
Lim(digits, neg) == [Dec(Str(digits)) EXCEPT !.neg = neg]
I32Max == Lim(<<2,1,4,7,4,8,3,6,4,7>>, FALSE)
I32Min == Lim(<<2,1,4,7,4,8,3,6,4,8>>, TRUE)
U32Max == Lim(<<4,2,9,4,9,6,7,2,9,5>>, FALSE)
(* a fraction's integer part is only asked for where float64 holds it exactly *)
SmallFrac(x) == Len(x.d) <= 15 /\ x.e <= 15
RangeOf(kind) == CASE kind \in {"i64", "int"} -> <<I64Min, I64Max>>
                   [] kind \in {"u64", "uint"} -> <<Zero, U64Max>>
                   [] kind = "i32" -> <<I32Min, I32Max>>
                   [] OTHER -> <<Zero, U32Max>>
(* may an integer accessor of this kind return text v for literal lit?       *)
IntConv(lit, kind, v) ==
    IF NonFinite(lit) THEN TRUE
    ELSE LET x == Dec(lit)
             y == Truncated(x)
             r == RangeOf(kind)
         IN IF NumIsInt(lit) THEN Between(x, r[1], r[2]) => CmpDec(Dec(v), x) = 0
            ELSE (SmallFrac(x) /\ Between(x, r[1], r[2]) /\ Between(y, r[1], r[2])) => CmpDec(Dec(v), y) = 0

(* the interval [lo, hi] of reals rounding to the float f the library gave:
   f = [ff finite?, lo, hi, ev both ends belong to it, neg sign]             *)
FloatConv(lit, f) ==
    IF lit = LitNaN THEN f.ff = 2
    ELSE IF lit = LitPInf THEN f.ff = 0 /\ f.neg = 0
    ELSE IF lit = LitNInf THEN f.ff = 0 /\ f.neg = 1
    ELSE LET d == [Dec(lit) EXCEPT !.neg = FALSE]
             p == CmpDec(d, Dec(f.lo))
             q == CmpDec(d, Dec(f.hi))
         IN /\ f.ff = 1
            /\ (p > 0 /\ q < 0) \/ (f.ev = 1 /\ p >= 0 /\ q <= 0)
            /\ f.neg = 1 => lit[1] = 45
            /\ lit[1] = 45 => (f.neg = 1 \/ f.lo = <<48>>)

(* truth value: 1, 0, or 2 where the float64 underflows                      *)
Truth(n) == CASE n.t = TBool -> n.s[1]
              [] n.t = TStr -> Bit(n.s = <<116, 114, 117, 101>>)
              [] n.t = TNum -> IF NonFinite(n.s) THEN 1
                               ELSE LET x == Dec(n.s) IN IF x.d = <<>> THEN 0 ELSE IF x.e < -300 THEN 2 ELSE 1
              [] OTHER -> 0

(* String(): the text of a scalar; containers have a description of no form *)
Described(n) == CASE n.t \in {TStr, TNum} -> n.s
                  [] n.t = TBool -> IF n.s = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
                  [] n.t = TNull -> <<110, 117, 108, 108>>
                  [] OTHER -> <<>>

(* -------------------------------- Base64 ------------------------------- *)
B64Char(v) == CASE v < 26 -> 65 + v [] v < 52 -> 71 + v [] v < 62 -> v - 4 [] v = 62 -> 43 [] OTHER -> 47
B64Val(c) == CASE c >= 65 /\ c <= 90 -> c - 65
               [] c >= 97 /\ c <= 122 -> c - 71
               [] c >= 48 /\ c <= 57 -> c + 4
               [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
Group3(b) == LET v == b[1] * 65536 + b[2] * 256 + b[3]
             IN <<B64Char(v \div 262144), B64Char((v \div 4096) % 64), B64Char((v \div 64) % 64), B64Char(v % 64)>>
B64(b) ==
    LET n == Len(b)   full == n \div 3
        head == FoldLeft(LAMBDA acc, i : acc \o Group3(SubSeq(b, 3 * i - 2, 3 * i)), <<>>, [i \in 1..full |-> i])
        r == SubSeq(b, 3 * full + 1, n)
    IN IF Len(r) = 0 THEN head
       ELSE IF Len(r) = 1 THEN head \o SubSeq(Group3(<<r[1], 0, 0>>), 1, 2) \o <<61, 61>>
       ELSE head \o SubSeq(Group3(<<r[1], r[2], 0>>), 1, 3) \o <<61>>
(* "ok" with the bytes, "bad", or "any" (padding bits that are not zero)     *)
UnB64(text) ==
    LET s == SelectSeq(text, LAMBDA c : c \notin {10, 13})
        n == Len(s)
        pad == IF n >= 1 /\ s[n] = 61 THEN (IF n >= 2 /\ s[n - 1] = 61 THEN 2 ELSE 1) ELSE 0
        body == SubSeq(s, 1, n - pad)
        bits == FoldLeft(LAMBDA st, c :
                    LET v == st.acc * 64 + B64Val(c)   k == st.k + 6
                    IN IF k >= 8 THEN LET d == 2 ^ (k - 8) IN [out |-> Append(st.out, v \div d), acc |-> v % d, k |-> k - 8]
                       ELSE [out |-> st.out, acc |-> v, k |-> k],
                    [out |-> <<>>, acc |-> 0, k |-> 0], body)
    IN IF n % 4 # 0 \/ \E i \in 1..Len(body) : B64Val(body[i]) < 0 THEN [v |-> "bad", b |-> <<>>]
       ELSE IF bits.acc # 0 THEN [v |-> "any", b |-> bits.out]
       ELSE [v |-> "ok", b |-> bits.out]

(* ----------------------------- typed getters --------------------------- *)
(* Does the observed g = [e, v, ...] fit getter `kind` at node n (c = 0), or a
   path error of class c?  e: 1 ErrNotFound, 2 ErrOutOfRange, 3 ErrTypeNotMatch,
   4 ErrParseNumberFromString, 5 another                                      *)
PathErr(c, e) == IF c \in {1, 2} THEN e = c ELSE e # 0
IntKinds == {"i64", "int", "u64", "uint", "i32", "u32"}
GetterFits(kind, c, n, g) ==
    IF c # 0 THEN PathErr(c, g.e) /\ (CASE kind \in IntKinds -> g.v = <<48>>
                                        [] kind \in {"str", "bytes"} -> g.v = <<>>
                                        [] kind \in {"f64", "f32"} -> g.z = 1
                                        [] kind = "bool" -> g.b = 0
                                        [] kind = "null" -> TRUE
                                        [] OTHER -> g.vt = 0)
    ELSE CASE kind \in IntKinds -> g.e = NumErr(n) /\ IntConv(AsLit(n), kind, g.v)
           [] kind = "f64" -> g.e = NumErr(n) /\ FloatConv(AsLit(n), g)
           [] kind = "f32" -> g.e = NumErr(n) /\ g.like = 1
           [] kind = "str" -> IF n.t = TStr THEN g.e = 0 /\ g.v = n.s ELSE g.e = 3 /\ g.v = <<>>
           [] kind = "bytes" -> IF n.t # TStr THEN g.e = 3 /\ g.v = <<>>
                                ELSE LET u == UnB64(n.s)
                                     IN CASE u.v = "ok" -> g.e = 0 /\ g.v = u.b
                                          [] u.v = "bad" -> g.e # 0 /\ g.v = <<>>
                                          [] OTHER -> IF g.e = 0 THEN g.v = u.b ELSE g.v = <<>>
           [] kind = "bool" -> g.e = (IF n.t = TBool THEN 0 ELSE 3) /\ (Truth(n) = 2 \/ g.b = Truth(n))
           [] kind = "null" -> g.e = (IF n.t = TNull THEN 0 ELSE 3)
           [] kind = "obj" -> IF n.t = TObj THEN g.e = 0 /\ g.same = 1 /\ g.vt = TObj ELSE g.e = 3 /\ g.vt = 0
           [] kind = "arr" -> IF n.t = TArr THEN g.e = 0 /\ g.same = 1 /\ g.vt = TArr ELSE g.e = 3 /\ g.vt = 0
=============================================================================
