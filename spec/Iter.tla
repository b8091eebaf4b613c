---------------------------------- MODULE Iter ----------------------------------
(* rs::IteratorAdapter: C++ input iterators over a Rust iterator.  A source yields
   1..n; an adapter prefetches one item.  cur = 0: at the end.  Kind "val" owns its
   source, "ptr" adapts a pointer to a source shared by all adapters.             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NA, MaxN, MaxLen
Absent == -1  Gone == -2
VARIABLES kind, n, cur, pos, shared, hist
vars == <<kind, n, cur, pos, shared, hist>>
view == <<kind, n, cur, pos, shared>>
As == 1..NA
Init == /\ kind \in {"val", "ptr"} /\ n \in 0..MaxN /\ cur = [a \in As |-> Absent] /\ pos = [a \in As |-> 0] /\ shared = 0
        /\ hist = <<[kind |-> kind, n |-> n]>>
Item(p) == IF p < n THEN p + 1 ELSE 0
P(a) == IF kind = "val" THEN pos[a] ELSE shared
Step(p) == IF p < n THEN p + 1 ELSE p
Do(op, a, b, c2, p2, sh, r) ==
  /\ cur' = c2 /\ pos' = p2 /\ shared' = sh /\ UNCHANGED <<kind, n>>
  /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b, r |-> r, cur |-> c2])
Fetch(op, a, p, r) == Do(op, a, 0, [cur EXCEPT ![a] = Item(p)], IF kind = "val" THEN [pos EXCEPT ![a] = Step(p)] ELSE pos,
                         IF kind = "ptr" THEN Step(p) ELSE shared, r)
New(a) == cur[a] = Absent /\ Fetch("new", a, IF kind = "val" THEN 0 ELSE shared, 0)
Inc(a) == cur[a] > 0 /\ Fetch("inc", a, P(a), 0)
PostInc(a) == cur[a] > 0 /\ Fetch("postinc", a, P(a), 0)
Deref(a) == cur[a] > 0 /\ Do("deref", a, 0, cur, pos, shared, cur[a])
IterMove(a) == cur[a] > 0 /\ Do("itermove", a, 0, cur, pos, shared, cur[a])
Copy(a, b) == a # b /\ cur[b] >= 0 /\ cur[a] = Absent /\ Do("copy", a, b, [cur EXCEPT ![a] = cur[b]], [pos EXCEPT ![a] = pos[b]], shared, 0)
Assign(a, b) == cur[a] >= 0 /\ cur[b] >= 0 /\ Do("assign", a, b, [cur EXCEPT ![a] = cur[b]], [pos EXCEPT ![a] = pos[b]], shared, 0)
MoveA(a, b) == a # b /\ cur[b] >= 0 /\ cur[a] = Absent /\ Do("move", a, b, [cur EXCEPT ![a] = cur[b], ![b] = Absent], [pos EXCEPT ![a] = pos[b]], shared, 0)
Drop(a) == cur[a] >= 0 /\ Do("drop", a, 0, [cur EXCEPT ![a] = Absent], pos, shared, 0)
Next == Len(hist) <= MaxLen /\ \E a \in As : New(a) \/ Inc(a) \/ PostInc(a) \/ Deref(a) \/ IterMove(a) \/ Drop(a)
                                              \/ \E b \in As : Copy(a, b) \/ Assign(a, b) \/ MoveA(a, b)
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(hist'))
Bounded == \A a \in As : cur[a] \in {Absent} \cup 0..n
=================================================================================
