------------------------------- MODULE Merge -------------------------------
(* Nullability evidence, partial results merged in any order, and conclusions (N01).

   A register holds a partial result: how often each kind of evidence was seen, and up
   to three locations per kind.  Beside it the specification keeps everything that was
   merged into it, so that what a partial says can be compared with what was seen:
   nothing else, neither order nor grouping, may matter. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Pick,             \* one random piece of evidence instead of all
          Kinds, Locs,      \* evidence: kinds and locations (0: none)
          Crosses,          \* whether evidence crosses from a test
          Regs, MaxLen, MaxEv,
          Direct            \* sets of kinds from which conclusions are drawn directly

VARIABLES regs, hist
vars == <<regs, hist>>

Limit == 3
Nothing == [live |-> FALSE, cnt |-> <<>>, smp |-> <<>>, seen |-> <<>>]

\* ------------------------------------------------------------ partial results
One(k, l) == [live |-> TRUE, cnt |-> [x \in Kinds |-> IF x = k THEN 1 ELSE 0],
              smp |-> [x \in Kinds |-> IF x = k /\ l # 0 THEN <<l>> ELSE <<>>], seen |-> <<<<k, l>>>>]
RECURSIVE Sampled(_, _)
Sampled(s, t) == IF t = <<>> \/ Len(s) >= Limit THEN s
                 ELSE Sampled(IF \E i \in DOMAIN s : s[i] = t[1] THEN s ELSE Append(s, t[1]), Tail(t))
Merged(p, q) == [live |-> TRUE, cnt |-> [x \in Kinds |-> p.cnt[x] + q.cnt[x]],
                 smp |-> [x \in Kinds |-> Sampled(p.smp[x], q.smp[x])], seen |-> p.seen \o q.seen]

\* ------------------------------------------------------------ conclusions
\* Kinds that force a conclusion, the most confident first.
NonnullKinds == {3, 21, 18, 10, 34, 26, 12, 14, 31}
NullableKinds == {4, 20, 13, 33, 7, 17, 35, 11}
Confidence == <<3, 4, 20, 21, 13, 33, 7, 17, 18, 10, 34, 35, 11, 26, 12, 14, 31>>
\* A field that a constructor leaves null is not nullable when a late initializer sets it.
Forces(K, k) == k \in K /\ (k = 33 => 32 \notin K)
Says(k) == IF k \in NonnullKinds THEN 1 ELSE 2
\* Weaker signs: kind, the kinds that must not be there, the conclusion.
Soft == <<<<29, {}, 1>>, <<30, {}, 2>>, <<16, {}, 1>>, <<8, {9}, 1>>, <<5, {6}, 1>>, <<15, {}, 2>>, <<23, {24}, 1>>, <<27, {19}, 1>>, <<28, {22}, 1>>>>
FirstThat(s, P(_)) == LET is == {i \in DOMAIN s : P(s[i])} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Conclude(K, soft) ==
  LET ann == K \cap {1, 2}
      hard == {k \in NonnullKinds \cup NullableKinds : Forces(K, k)}
      f == FirstThat(Confidence, LAMBDA k : k \in hard)
      s == FirstThat(Soft, LAMBDA r : r[1] \in K /\ r[2] \cap K = {}) IN
  IF ann # {} THEN [n |-> IF Cardinality(ann) = 2 THEN 0 ELSE IF 2 \in ann THEN 1 ELSE 2, conflict |-> Cardinality(ann) = 2, trivial |-> Cardinality(ann) = 1]
  ELSE IF hard # {} THEN [n |-> Says(Confidence[f]), conflict |-> (hard \cap NonnullKinds # {}) /\ (hard \cap NullableKinds # {}), trivial |-> FALSE]
  ELSE [n |-> IF soft /\ s # 0 THEN Soft[s][3] ELSE 0, conflict |-> FALSE, trivial |-> FALSE]

\* ------------------------------------------------------------ operations
KindsOf(seen) == {seen[i][1] : i \in DOMAIN seen}
Show(p) == IF p.live THEN {<<k, p.cnt[k], {l \in Locs \ {0} : <<k, l>> \in Range(p.seen)}>> : k \in {x \in Kinds : p.cnt[x] > 0}} ELSE {}
Do(op, res) == hist' = Append(hist, <<op, res>>)

Init == regs = [r \in Regs |-> Nothing] /\ hist = <<>>
New(r, k, l, x) ==
  /\ regs' = [regs EXCEPT ![r] = IF x THEN Nothing ELSE One(k, l)]
  /\ Do(<<"n", r, k, l, x>>, Show(regs'[r]))
Join(r, q) ==
  /\ r # q /\ regs[r].live /\ regs[q].live /\ Len(regs[r].seen) + Len(regs[q].seen) <= MaxEv
  /\ regs' = [regs EXCEPT ![r] = Merged(regs[r], regs[q])]
  /\ Do(<<"m", r, q>>, Show(regs'[r]))
Answer(r, soft) ==
  /\ regs[r].live /\ Do(<<"f", r, soft>>, <<Conclude(KindsOf(regs[r].seen), soft), Show(regs[r])>>) /\ UNCHANGED regs
\* Everything at once, as a list.
Whole(r) ==
  /\ regs[r].live /\ Do(<<"e", 1, regs[r].seen>>, <<Conclude(KindsOf(regs[r].seen), TRUE), Show(regs[r])>>) /\ UNCHANGED regs
Counts(K, soft) == hist = <<>> /\ Do(<<"i", soft, K>>, Conclude(K, soft)) /\ UNCHANGED regs
Some(S) == IF Pick THEN {RandomElement(S) : i \in 1..2} ELSE S
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ \E r \in Some(Regs), k \in Some(Kinds), l \in Some(Locs), x \in Some(Crosses) : New(r, k, l, x)
              \/ \E r \in Regs, q \in Regs : Join(r, q)
              \/ \E r \in Regs, soft \in BOOLEAN : Answer(r, soft)
              \/ \E r \in Regs : Whole(r)
        \/ \E K \in Direct, soft \in BOOLEAN : Counts(K, soft)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
Live == {r \in Regs : regs[r].live}
\* A partial result is a function of what was seen.
Faithful == \A r \in Live : \A k \in Kinds :
  /\ regs[r].cnt[k] = Cardinality({i \in DOMAIN regs[r].seen : regs[r].seen[i][1] = k})
  /\ LET locs == {l \in Locs \ {0} : <<k, l>> \in Range(regs[r].seen)} IN
     /\ Range(regs[r].smp[k]) \subseteq locs
     /\ Len(regs[r].smp[k]) = Cardinality(Range(regs[r].smp[k]))
     /\ Len(regs[r].smp[k]) = IF Cardinality(locs) < Limit THEN Cardinality(locs) ELSE Limit
\* Order and grouping do not matter.
Same(p, q) == p.cnt = q.cnt /\ \A k \in Kinds : Len(p.smp[k]) = Len(q.smp[k])
Laws == \A r, q \in Live : Same(Merged(regs[r], regs[q]), Merged(regs[q], regs[r]))
        /\ \A s \in Live : Same(Merged(Merged(regs[r], regs[q]), regs[s]), Merged(regs[r], Merged(regs[q], regs[s])))
\* More evidence never withdraws a conflict between facts, and annotations override facts.
Stable == \A r, q \in Live :
  LET a == KindsOf(regs[r].seen) b == a \cup KindsOf(regs[q].seen) IN
  (Conclude(a, TRUE).conflict /\ b \cap {1, 2, 32} = {}) => Conclude(b, TRUE).conflict
Decided == \A r \in Live : LET c == Conclude(KindsOf(regs[r].seen), FALSE) d == Conclude(KindsOf(regs[r].seen), TRUE) IN
  (c.n # 0 \/ c.conflict) => c = d

View == <<[r \in Regs |-> [live |-> regs[r].live, cnt |-> regs[r].cnt, smp |-> regs[r].smp]], Len(hist)>>
Emit == hist' = <<>> \/ PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
