-------------------------------- MODULE Toposort --------------------------------
(* Priority-driven topological sort (cc_bindings_from_rs/toposort.rs).

   Nodes are 1..N in input order; rank gives the preferred order (ties: input
   order).  The machine removes, as long as some remaining node has no remaining
   predecessor, the preferred one among them.  What is left over has failed.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Ranks,      \* Ranks: the rank functions to try (sequences of length N)
          MaxEdges       \* bound on the number of edges, for random search

Nodes == 1..N
Pairs == Nodes \X Nodes
VARIABLES edges, at, rank, left, ordered, hist
vars == <<edges, at, rank, left, ordered, hist>>
view == <<edges, at, rank, left, ordered>>

\* The graph is chosen one successor set at a time (at: next node to choose for).
Init == edges = {} /\ at = 1 /\ rank \in Ranks /\ left = Nodes /\ ordered = <<>> /\ hist = <<>>
Choose == /\ at <= N
          /\ \E S \in SUBSET Nodes :
               /\ Cardinality(edges) + Cardinality(S) <= MaxEdges
               /\ edges' = edges \cup {<<at, s>> : s \in S}
          /\ at' = at + 1
          /\ UNCHANGED <<rank, left, ordered, hist>>

Ready == {n \in left : \A e \in edges : e[2] = n => e[1] \notin left}
Before(a, b) == rank[a] < rank[b] \/ (rank[a] = rank[b] /\ a < b)
Pop == /\ at = N + 1 /\ hist = <<>>
       /\ \E n \in Ready : /\ \A m \in Ready : m = n \/ Before(n, m)
                           /\ left' = left \ {n}
                           /\ ordered' = Append(ordered, n)
       /\ UNCHANGED <<edges, at, rank, hist>>
Done == /\ at = N + 1 /\ Ready = {} /\ hist = <<>>
        /\ hist' = <<[n |-> N, edges |-> edges, rank |-> rank, ordered |-> ordered, failed |-> left]>>
        /\ UNCHANGED <<edges, at, rank, left, ordered>>
Next == Choose \/ Pop \/ Done
Spec == Init /\ [][Next]_vars
Emit == hist' # hist => PrintT("@@" \o ToJson(hist'[1]))
-------------------------------------------------------------------------------
RECURSIVE Close(_, _)
Close(S, k) == IF k = 0 THEN S ELSE Close(S \cup {e[2] : e \in {x \in edges : x[1] \in S}}, k - 1)
After(n) == Close({e[2] : e \in {x \in edges : x[1] = n}}, N)
OnCycle == {n \in Nodes : n \in After(n)}
MustFail == OnCycle \cup UNION {After(n) : n \in OnCycle}
Finished == hist # <<>>

Partition == {ordered[i] : i \in 1..Len(ordered)} = Nodes \ left
             /\ Cardinality(Nodes \ left) = Len(ordered)
Topological == \A i, j \in 1..Len(ordered) : <<ordered[i], ordered[j]>> \in edges => i < j
FailedExact == Finished => left = MustFail
\* when the preferred order is possible it is kept
Kept == Finished /\ (\A e \in edges : Before(e[1], e[2])) =>
          /\ left = {}
          /\ \A i, j \in 1..Len(ordered) : i < j => Before(ordered[i], ordered[j])
\* no node could have come earlier in place of the one chosen
Greedy == \A i \in 1..Len(ordered) : \A n \in Nodes :
            (\A e \in edges : e[2] = n => \E k \in 1..(i-1) : ordered[k] = e[1])
            /\ (\A k \in 1..i : ordered[k] # n) => Before(ordered[i], n)
=============================================================================
