-------------------------------- MODULE MCPump --------------------------------
(***************************************************************************)
(* The rule of JVPump is right: for every head, unit, tail and count of a    *)
(* small world the reading and the marshaled form grow as it says, and a     *)
(* result with a byte too many, too few or other than it should be, at any   *)
(* place, does not follow.                                                   *)
(***************************************************************************)
EXTENDS JVPump

CONSTANT More                  \* counts beyond Few that are looked at

Heads == {<<>>, <<97>>, <<92, 110>>, <<195, 169>>, <<120, 92, 117, 48, 48, 69, 57>>}
Units == {<<97>>, <<120, 121, 122>>, <<92, 110>>, <<195, 169>>, <<92, 34>>, <<92, 117, 48, 48, 101, 57>>,
          <<240, 159, 152, 128>>, <<92, 117, 68, 56, 51, 68, 92, 117, 68, 69, 48, 48>>, <<97, 92, 92>>, <<47>>}
Tails == {<<>>, <<101, 110, 100>>, <<92, 116>>}
Forms == { [ctx |-> "str", a |-> <<34>>, b |-> <<34>>],
           [ctx |-> "arr", a |-> <<91, 34>>, b |-> <<34, 44, 55, 93>>],
           [ctx |-> "key", a |-> <<123, 34>>, b |-> <<34, 58, 55, 125>>] }

VARIABLES x, n
Init == /\ \E h \in Heads, u \in Units, t \in Tails, f \in Forms :
              x = [ctx |-> f.ctx, pre |-> f.a \o h, unit |-> u, suf |-> t \o f.b]
        /\ n = Few
Next == n < Few + More /\ n' = n + 1 /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, n>>

Of(s) == LET k == Len(s)
         IN [n |-> k, h |-> First(s), t |-> Last64(s),
             per |-> SelectSeq([i \in 1..24 |-> i], LAMBDA p : \A i \in 41..(k - 40 - p) : s[i] = s[i + p])]
Read(k) == Leaf(x.ctx, Judge(Pumped(x, k)).tree)
Written(k) == Ser(Nothing, Expect(Nothing, Judge(Pumped(x, k)).tree, 0), 0)
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

GrowsSteadily == Grows(Read(2), Read(3), Read(Few)) /\ Grows(Written(2), Written(3), Written(Few))
ReadFollows == Follows(Of(Read(n)), Read(2), Read(3), Read(Few), n)
WrittenFollows == Follows(Of(Written(n)), Written(2), Written(3), Written(Few), n)
(* any one byte lost, doubled or changed is seen, and so is a unit too many   *)
Sharp == LET s == Read(n)   two == Read(2)  three == Read(3)  few == Read(Few)
         IN n > Few + 1 \/
            /\ ~Follows(Of(Read(n + 1)), two, three, few, n)
            /\ \A i \in 1..Len(s) : i % 7 = n % 7 =>
                  /\ ~Follows(Of(Drop(s, i)), two, three, few, n)
                  /\ ~Follows(Of(SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))), two, three, few, n)
                  /\ ~Follows(Of([s EXCEPT ![i] = (s[i] + 1) % 256]), two, three, few, n)
=============================================================================
