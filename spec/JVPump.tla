-------------------------------- MODULE JVPump --------------------------------
(***************************************************************************)
(* Inputs far larger than can be spelled out: head, n times a unit, tail.    *)
(* The reading of such a text, its strings and its marshaled form grow by    *)
(* the same run with every further unit, so what n units give follows from   *)
(* what few of them give.  Large results are known by their length, their    *)
(* first and last W bytes, and the periods of everything between.            *)
(***************************************************************************)
EXTENDS JVMarshal, JVValues

W == 64
Few == 70                     \* as many units as fill both windows
Pumped(x, k) == x.pre \o Times(x.unit, k) \o x.suf
First(s) == SubSeq(s, 1, IF Len(s) < W THEN Len(s) ELSE W)
Last64(s) == SubSeq(s, IF Len(s) < W THEN 1 ELSE Len(s) - W + 1, Len(s))

(* s2, s3, sk: what 2, 3 and Few units give; ob: what was seen with n        *)
Grows(s2, s3, sk) == Len(sk) = Len(s2) + (Few - 2) * (Len(s3) - Len(s2))
Follows(ob, s2, s3, sk, n) ==
    LET p == Len(s3) - Len(s2)
    IN /\ ob.n = Len(sk) + (n - Few) * p
       /\ ob.h = First(sk) /\ ob.t = Last64(sk)
       /\ p = 0 \/ \E i \in 1..Len(ob.per) : ob.per[i] = p

(* the string that grows                                                    *)
Leaf(ctx, tree) == CASE ctx = "key" -> tree.k[1]
                     [] ctx = "arr" -> tree.e[1].s
                     [] ctx = "last" -> tree.e[Len(tree.e)].s
                     [] OTHER -> tree.s
=============================================================================
