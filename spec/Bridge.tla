---------------------------------- MODULE Bridge ----------------------------------
(* A value that travels between Rust and C++ in a byte buffer.  First a type is put
   together in preorder out of leaves and combinators (an option also says whether the
   value is there); every part that is present takes its place in the buffer, in order
   and without gaps.  Then the value is encoded on the side where it lives and decoded
   on the other one, several times, and dropped at last.  The leaves that own something
   are owned by exactly one place at any time: a side or the buffer.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Size,       \* leaf -> bytes
          Owned,      \* leaves that own something
          Arity,      \* combinator -> number of parts
          NoRoot,     \* kinds that may not be the whole type
          MaxNodes, MaxDepth, MaxTrips, SameSide, Starts
VARIABLES stack,    \* open combinators: parts still to come, whether they are present
          n,        \* parts so far
          size,     \* bytes a value of the type may take
          used,     \* bytes this value takes
          parts,    \* <<offset, size>> of the present leaves
          own,      \* number of owning leaves that are present
          owner,    \* "none" while the type is put together, a side, "buffer", "gone"
          trips, hist
vars == <<stack, n, size, used, parts, own, owner, trips, hist>>
view == vars
Leaf == DOMAIN Size
Comb == DOMAIN Arity
RECURSIVE Norm(_)
Norm(s) == IF s # <<>> /\ s[Len(s)].left = 0 THEN Norm(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1].left + Sum(SubSeq(s, 2, Len(s)))
Init == /\ stack = <<[left |-> 1, live |-> TRUE]>> /\ n = 0 /\ size = 0 /\ used = 0 /\ parts = <<>> /\ own = 0
        /\ owner = "none" /\ trips = 0 /\ hist = <<>>
Top == stack[Len(stack)]
Pop == [stack EXCEPT ![Len(stack)].left = @ - 1]
Rec(r) == hist' = Append(hist, r)
Write(b, live) == /\ size' = size + b
                  /\ used' = (IF live THEN used + b ELSE used)
                  /\ parts' = (IF live THEN Append(parts, <<used, b>>) ELSE parts)
Put(k) == /\ stack # <<>> /\ n < MaxNodes /\ (n = 0 => k \notin NoRoot)
          /\ stack' = Norm(Pop) /\ n' = n + 1
          /\ Write(Size[k], Top.live)
          /\ own' = own + (IF Top.live /\ k \in Owned THEN 1 ELSE 0)
          /\ Rec([op |-> "leaf", k |-> k, live |-> Top.live]) /\ UNCHANGED <<owner, trips>>
Open(k, there) == /\ stack # <<>> /\ Len(stack) <= MaxDepth /\ n + Sum(stack) + Arity[k] <= MaxNodes
                  /\ (n = 0 => k \notin NoRoot)
                  /\ (k # "opt" => there) /\ (there \/ Top.live)     \* what is absent has one form
                  /\ stack' = Norm(Append(Pop, [left |-> Arity[k], live |-> there /\ Top.live])) /\ n' = n + 1
                  /\ (IF k = "opt" THEN Write(1, Top.live) ELSE UNCHANGED <<size, used, parts>>)
                  /\ Rec([op |-> "comb", k |-> k, live |-> Top.live, there |-> there /\ Top.live]) /\ UNCHANGED <<own, owner, trips>>
Make(s) == /\ stack = <<>> /\ owner = "none" /\ owner' = s
           /\ Rec([op |-> "make", side |-> s, size |-> size, used |-> used, own |-> own])
           /\ UNCHANGED <<stack, n, size, used, parts, own, trips>>
Sides == {"r", "c"}
Encode == /\ owner \in Sides /\ trips < MaxTrips /\ owner' = "buffer" /\ trips' = trips + 1
          /\ Rec([op |-> "encode", side |-> owner]) /\ UNCHANGED <<stack, n, size, used, parts, own>>
Decode(s) == /\ owner = "buffer" /\ (s # hist[Len(hist)].side \/ SameSide) /\ owner' = s
             /\ Rec([op |-> "decode", side |-> s]) /\ UNCHANGED <<stack, n, size, used, parts, own, trips>>
Drop == /\ owner \in Sides /\ trips > 0 /\ owner' = "gone"
        /\ Rec([op |-> "drop", side |-> owner]) /\ UNCHANGED <<stack, n, size, used, parts, own, trips>>
Next == \/ \E k \in Leaf : Put(k)
        \/ \E k \in Comb, t \in BOOLEAN : Open(k, t)
        \/ \E s \in Starts : Make(s)
        \/ Encode \/ Drop \/ \E s \in Sides : Decode(s)
Spec == Init /\ [][Next]_vars
Emit == owner' = "gone" => PrintT("@@" \o ToJson(hist'))
\* no two parts of the value share a byte, all lie in the buffer, none is left over
Fits == used <= size /\ \A i, j \in 1..Len(parts) : /\ parts[i][1] + parts[i][2] <= used
                                                    /\ i < j => parts[i][1] + parts[i][2] <= parts[j][1]
Packed == used = (IF parts = <<>> THEN 0 ELSE parts[Len(parts)][1] + parts[Len(parts)][2])
\* the value lives in exactly one place and is dropped once, where it is
OneOwner == [][(owner \in Sides) => owner' \in {owner, "buffer", "gone"}]_vars
=================================================================================
