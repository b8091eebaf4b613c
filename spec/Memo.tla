---------------------------------- MODULE Memo ----------------------------------
(* Memoised queries with cycle breaking (common/memoized.rs).

   A database evaluates queries.  A query is a node of a dependency graph: its
   value is a function of the values of its successors, demanded in order.  The
   specification is a stack machine, one action per step of the real code: demand
   a node (cached / already active / new), finish a node, answer the caller.

   Values are the evaluation trees themselves, as strings: node n over successors
   with values v1, v2 has the value "n(v1 v2)".  A demand for a node that is being
   evaluated is a cycle: it is answered with "~n" (node kinds "b" and "m", which
   declare an answer for cycles) or panics (kind "s").                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,          \* nodes are 1..N
          Dbs,        \* number of databases
          MaxSucc,    \* longest successor list
          Kinds,      \* possible kinds of nodes, a subset of {"b","s","m"}
          Sorted,     \* only programs whose nodes are sorted by kind (all graphs are tried anyway)
          MaxQueries  \* length of the sequence of top-level queries

Nodes == 1..N
KindNo(k) == CASE k = "b" -> 1 [] k = "m" -> 2 [] k = "s" -> 3
Name(n) == ToString(n)
SuccLists == UNION {[1..k -> Nodes] : k \in 0..MaxSucc}

VARIABLES succ, kind,      \* the program: fixed along a behaviour
          cache,           \* cache[d][n]: remembered value or ""
          active,          \* active[d]: nodes being evaluated
          hit,             \* hit[d]: active nodes that were demanded again (cycle heads)
          stack,           \* frames [n, pos, acc] of the query being evaluated
          cur,             \* database of the query being evaluated, 0 if none
          evals,           \* evals[n]: evaluations started by the current query
          dead,            \* databases whose last query panicked
          nq, hist

vars == <<succ, kind, cache, active, hit, stack, cur, evals, dead, nq, hist>>
view == <<succ, kind, cache, active, hit, stack, cur, evals, dead, nq>>

Init ==
  /\ succ = <<>> /\ kind = <<>>
  /\ cache = [d \in 1..Dbs |-> [n \in Nodes |-> ""]]
  /\ active = [d \in 1..Dbs |-> {}]
  /\ hit = [d \in 1..Dbs |-> {}]
  /\ stack = <<>> /\ cur = 0 /\ nq = 0 /\ dead = {}
  /\ evals = [n \in Nodes |-> 0]
  /\ hist = <<>>

\* The program is chosen node by node.
Choose ==
  /\ Len(succ) < N
  /\ \E s \in SuccLists, k \in Kinds :
       /\ succ' = Append(succ, s)
       /\ kind' = Append(kind, k)
       /\ IF Sorted /\ kind # <<>> THEN KindNo(kind[Len(kind)]) <= KindNo(k) ELSE TRUE
       /\ hist' = IF Len(succ) + 1 = N THEN <<[succ |-> succ', kind |-> kind']>> ELSE <<>>
  /\ UNCHANGED <<cache, active, hit, stack, cur, evals, dead, nq>>
Ready == Len(succ) = N

Push(n, s) == Append(s, [n |-> n, pos |-> 1, acc |-> ""])

\* The value v is delivered to the top frame, or to the caller when there is none.
Answer(d, q, v, ev) ==
  hist' = Append(hist, [db |-> d, q |-> q, res |-> v, evals |-> ev])

\* A top-level query: answered from the cache, or starts an evaluation.
Query(d, n) ==
  /\ Ready /\ cur = 0 /\ nq < MaxQueries /\ d \notin dead
  /\ nq' = nq + 1
  /\ IF cache[d][n] # ""
     THEN /\ Answer(d, n, cache[d][n], [m \in Nodes |-> 0])
          /\ UNCHANGED <<succ, kind, cache, active, hit, stack, cur, evals, dead>>
     ELSE /\ cur' = d
          /\ stack' = Push(n, <<>>)
          /\ active' = [active EXCEPT ![d] = @ \cup {n}]
          /\ evals' = [m \in Nodes |-> IF m = n THEN 1 ELSE 0]
          /\ UNCHANGED <<succ, kind, cache, hit, dead, hist>>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Feed(s, v) == LET t == s[Len(s)] IN
  [s EXCEPT ![Len(s)] = [t EXCEPT !.pos = @ + 1, !.acc = IF @ = "" THEN v ELSE @ \o " " \o v]]

\* The top frame demands its next successor.
Demand ==
  /\ cur # 0 /\ Top.pos <= Len(succ[Top.n])
  /\ LET m == succ[Top.n][Top.pos] IN
     CASE cache[cur][m] # "" ->
            /\ stack' = Feed(stack, cache[cur][m])
            /\ UNCHANGED <<succ, kind, cache, active, hit, cur, evals, dead, nq, hist>>
       [] cache[cur][m] = "" /\ m \in active[cur] /\ kind[m] # "s" ->
            /\ hit' = [hit EXCEPT ![cur] = @ \cup {m}]
            /\ stack' = Feed(stack, "~" \o Name(m))
            /\ UNCHANGED <<succ, kind, cache, active, cur, evals, dead, nq, hist>>
       [] cache[cur][m] = "" /\ m \in active[cur] /\ kind[m] = "s" ->
            \* the query panics; nothing is promised about this database any more
            /\ Answer(cur, stack[1].n, "!" \o Name(m), evals)
            /\ dead' = dead \cup {cur} /\ cur' = 0 /\ stack' = <<>>
            /\ UNCHANGED <<succ, kind, cache, active, hit, evals, nq>>
       [] OTHER ->
            /\ stack' = Push(m, stack)
            /\ active' = [active EXCEPT ![cur] = @ \cup {m}]
            /\ evals' = [evals EXCEPT ![m] = @ + 1]
            /\ UNCHANGED <<succ, kind, cache, hit, cur, dead, nq, hist>>

\* The top frame has all its successors' values: it finishes.
Finish ==
  /\ cur # 0 /\ Top.pos > Len(succ[Top.n])
  /\ LET n == Top.n
         v == Name(n) \o "(" \o Top.acc \o ")"
         open == hit[cur] \ {n}
     IN /\ active' = [active EXCEPT ![cur] = @ \ {n}]
        /\ hit' = [hit EXCEPT ![cur] = open]
        /\ cache' = IF open = {} THEN [cache EXCEPT ![cur][n] = v] ELSE cache
        /\ IF Len(stack) = 1
           THEN /\ stack' = <<>> /\ cur' = 0 /\ Answer(cur, n, v, evals)
           ELSE /\ stack' = Feed(Rest, v) /\ UNCHANGED <<cur, hist>>
        /\ UNCHANGED <<succ, kind, evals, dead, nq>>

Next == \/ Choose
        \/ \E d \in 1..Dbs, n \in Nodes : Query(d, n)
        \/ Demand
        \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Demand \/ Finish)

\* Only completed queries are observable.
Emit == Len(hist') > Len(hist) /\ Len(hist') > 1 => PrintT("@@" \o ToJson(hist'))

-------------------------------------------------------------------------------
(* The properties. *)
Edges == {<<a, b>> \in Nodes \X Nodes : \E i \in 1..Len(succ[a]) : succ[a][i] = b}
RECURSIVE ReachN(_, _)
ReachN(S, k) == IF k = 0 THEN S ELSE ReachN(S \cup {e[2] : e \in {x \in Edges : x[1] \in S}}, k - 1)
Reach(n) == ReachN({e[2] : e \in {x \in Edges : x[1] = n}}, N)   \* proper successors, transitively
Acyclic(n) == \A m \in Reach(n) \cup {n} : m \notin Reach(m)

RECURSIVE Den(_), DenList(_, _)
Den(n) == Name(n) \o "(" \o DenList(succ[n], 1) \o ")"
DenList(s, i) == IF i > Len(s) THEN ""
                 ELSE Den(s[i]) \o (IF i < Len(s) THEN " " ELSE "") \o DenList(s, i + 1)

\* what an acyclic query remembers or answers is the value of a fresh evaluation
Pure == Ready =>
        /\ \A d \in 1..Dbs, n \in Nodes : cache[d][n] # "" /\ Acyclic(n) => cache[d][n] = Den(n)
        /\ \A i \in 2..Len(hist) : Acyclic(hist[i].q) => hist[i].res = Den(hist[i].q)
\* no value is remembered while a cycle it may depend on is open
NoTaint == [][\A d \in 1..Dbs, n \in Nodes : cache'[d][n] # cache[d][n] => hit'[d] = {} /\ cache[d][n] = ""]_vars
\* every answered query that met no open cycle is remembered, so evaluated once
AnsweredIsCached == \A i \in 2..Len(hist) :
   hist[i].db \notin dead => cache[hist[i].db][hist[i].q] = hist[i].res
OncePerDb == Ready => \A n \in Nodes, d \in 1..Dbs : Acyclic(n) =>
   \A i, j \in 2..Len(hist) :
     i < j /\ hist[i].db = d /\ hist[j].db = d /\ hist[i].q = n => hist[j].evals[n] = 0
\* balanced bookkeeping
Quiet == cur = 0 => \A d \in (1..Dbs) \ dead : active[d] = {} /\ hit[d] = {}
HeadsActive == \A d \in 1..Dbs : hit[d] \subseteq active[d]
CycleOnlyIfCyclic == \A i \in 2..Len(hist) :
   Acyclic(hist[i].q) => ~(\E n \in Nodes : hist[i].res = "!" \o Name(n))
Answers == []<>(cur = 0)      \* every query terminates
=============================================================================
