----------------------------------- MODULE Errs -----------------------------------
(* Errors as values.  An error is a chain of context messages, outermost first, over a
   root; a root is a message of some kind or a list of errors.  Handles may share one
   error (clones).  Errors are collected, combined into a list error, and reported into
   the entry of the current item of a report.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NH,        \* handles
          NE,        \* collections
          Roots,     \* kinds of fresh roots
          Items,     \* items of the report, 0 is "outside any item"
          MaxLen, MaxMsg, MaxWeight, Ops
VARIABLES h,         \* handle -> NONE or [ctx, root, id]
          es,      \* collection -> sequence of errors
          n,         \* messages made so far
          ids,       \* identities made so far
          scope,     \* stack of entered items, outermost first
          rep,       \* item -> [on, errors, cat]
          res,       \* what the last step returned
          hist
vars == <<h, es, n, ids, scope, rep, res, hist>>
view == <<h, es, n, ids, scope, rep, Len(hist)>>
H == 1..NH
C == 1..NE
NONE == [id |-> 0]
Cur == IF scope = <<>> THEN 0 ELSE scope[Len(scope)]
\* the messages of an error, as the report sees it: only roots, lists flattened
RECURSIVE Flat(_), FlatAll(_), Weight(_), WeightAll(_)
\* (a root that is not one of our formatted messages is reported as the outermost message)
Formatted == {"fmt", "inl", "static", "dyn", "un"}
Flat(e) == IF e.root.k = "list" THEN FlatAll(e.root.items)
           ELSE IF e.root.k \in Formatted \/ e.ctx = <<>> THEN <<[k |-> e.root.k, m |-> e.root.m]>>
           ELSE <<[k |-> "ctx", m |-> e.ctx[1]]>>
FlatAll(s) == IF s = <<>> THEN <<>> ELSE Flat(s[1]) \o FlatAll(SubSeq(s, 2, Len(s)))
Weight(e) == Len(e.ctx) + (IF e.root.k = "list" THEN 1 + WeightAll(e.root.items) ELSE 1)
WeightAll(s) == IF s = <<>> THEN 0 ELSE Weight(s[1]) + WeightAll(SubSeq(s, 2, Len(s)))
Step(op, a, b, how) ==
  /\ Len(hist) < MaxLen
  /\ op \in Ops
  /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b, how |-> how, n |-> n', h |-> h', es |-> es', scope |-> scope', rep |-> rep', res |-> res'])
Free(i) == h[i] = NONE
Err(ctx, root) == [ctx |-> ctx, root |-> root, id |-> ids + 1]
Keep == UNCHANGED <<es, scope, rep>>
Init == /\ h = [i \in H |-> NONE] /\ es = [c \in C |-> <<>>] /\ n = 0 /\ ids = 0 /\ scope = <<>>
        /\ rep = [i \in Items |-> [on |-> FALSE, errors |-> <<>>, cat |-> {}]] /\ res = "" /\ hist = <<>>
New(i, k) == /\ Free(i) /\ n < MaxMsg /\ \A j \in H : j < i => ~Free(j)
             /\ h' = [h EXCEPT ![i] = IF k = "std2" THEN Err(<<n + 1>>, [k |-> "std", m |-> n + 2])
                                      ELSE Err(<<>>, [k |-> k, m |-> n + 1])]
             /\ n' = (IF k = "std2" THEN n + 2 ELSE n + 1) /\ ids' = ids + 1 /\ res' = "" /\ Keep
             /\ Step("new", i, 0, k)
Ctx(i, how) == /\ ~Free(i) /\ n < MaxMsg /\ Weight(h[i]) < MaxWeight
               /\ h' = [h EXCEPT ![i] = Err(<<n + 1>> \o h[i].ctx, h[i].root)]
               /\ n' = n + 1 /\ ids' = ids + 1 /\ res' = "" /\ Keep /\ Step("ctx", i, 0, how)
Clone(i, j) == /\ ~Free(i) /\ Free(j) /\ h' = [h EXCEPT ![j] = h[i]] /\ res' = "" /\ UNCHANGED <<n, ids>> /\ Keep /\ Step("clone", i, j, "")
Conv(i) == /\ ~Free(i) /\ h' = [h EXCEPT ![i].id = ids + 1] /\ ids' = ids + 1 /\ res' = "" /\ UNCHANGED n /\ Keep /\ Step("conv", i, 0, "")
DropH(i) == /\ ~Free(i) /\ h' = [h EXCEPT ![i] = NONE] /\ res' = "" /\ UNCHANGED <<n, ids>> /\ Keep /\ Step("drop", i, 0, "")
Add(c, i, how) == /\ ~Free(i) /\ WeightAll(es[c]) + Weight(h[i]) < MaxWeight
                  /\ es' = [es EXCEPT ![c] = Append(@, h[i])] /\ h' = [h EXCEPT ![i] = NONE]
                  /\ res' = "" /\ UNCHANGED <<n, ids, scope, rep>> /\ Step("add", c, i, how)
\* a value passes through untouched
Pass(c, how) == /\ res' = "ok" /\ UNCHANGED <<h, es, n, ids, scope, rep>> /\ Step("pass", c, 0, how)
Bail(c) == /\ n < MaxMsg /\ n' = n + 1 /\ ids' = ids + 1 /\ WeightAll(es[c]) + 1 < MaxWeight
           /\ es' = [es EXCEPT ![c] = Append(@, Err(<<>>, [k |-> "fmt", m |-> n + 1]))] /\ res' = "will"
           /\ UNCHANGED <<h, scope, rep>> /\ Step("bail", c, 0, "")
Consolidate(c, j) == /\ Free(j) /\ es' = [es EXCEPT ![c] = <<>>]
                     /\ IF es[c] = <<>> THEN h' = h /\ ids' = ids /\ res' = "ok"
                        ELSE /\ h' = [h EXCEPT ![j] = Err(<<>>, [k |-> "list", items |-> es[c]])]
                             /\ ids' = ids + 1 /\ res' = "err"
                     /\ UNCHANGED <<n, scope, rep>> /\ Step("consolidate", c, j, "")
ConsolidateOn(c, i) == /\ ~Free(i) /\ WeightAll(es[c]) + Weight(h[i]) < MaxWeight
                       /\ h' = [h EXCEPT ![i] = Err(<<>>, [k |-> "list", items |-> Append(es[c], h[i])])]
                       /\ es' = [es EXCEPT ![c] = <<>>] /\ ids' = ids + 1 /\ res' = "err" /\ UNCHANGED <<n, scope, rep>>
                       /\ Step("consolidate_on", c, i, "")
Discard(c) == /\ es' = [es EXCEPT ![c] = <<>>] /\ res' = "" /\ UNCHANGED <<h, n, ids, scope, rep>> /\ Step("discard", c, 0, "")
DropC(c) == /\ es' = [es EXCEPT ![c] = <<>>] /\ res' = (IF es[c] = <<>> THEN "ok" ELSE "panic") /\ UNCHANGED <<h, n, ids, scope, rep>> /\ Step("dropc", c, 0, "")
Report(i) == /\ ~Free(i)
             /\ LET f == Flat(h[i]) IN
                rep' = IF f = <<>> THEN rep ELSE [rep EXCEPT ![Cur].on = TRUE, ![Cur].errors = @ \o f]
             /\ res' = "" /\ UNCHANGED <<h, es, n, ids, scope>> /\ Step("report", i, 0, "")
Enter(it) == /\ it # 0 /\ Len(scope) < 3 /\ scope' = Append(scope, it) /\ rep' = [rep EXCEPT ![it].on = TRUE]
             /\ res' = "" /\ UNCHANGED <<h, es, n, ids>> /\ Step("enter", it, 0, "")
\* another name for a known item is refused; the report stays as it was
EnterWrong(it) == /\ it # 0 /\ rep[it].on /\ res' = "panic" /\ UNCHANGED <<h, es, n, ids, scope, rep>> /\ Step("enterwrong", it, 0, "")
Exit == /\ scope # <<>> /\ scope' = SubSeq(scope, 1, Len(scope) - 1) /\ res' = "" /\ UNCHANGED <<h, es, n, ids, rep>> /\ Step("exit", 0, 0, "")
In(it) == /\ it # 0 /\ res' = (IF Cur = it THEN "ok" ELSE "panic") /\ UNCHANGED <<h, es, n, ids, scope, rep>> /\ Step("in", it, 0, "")
Cat(k) == /\ rep' = [rep EXCEPT ![Cur].on = TRUE, ![Cur].cat = @ \cup {k}] /\ res' = "" /\ UNCHANGED <<h, es, n, ids, scope>> /\ Step("cat", k, 0, "")
Next == \/ \E i \in H : \/ \E k \in Roots : New(i, k)
                        \/ \E w \in {"method", "result", "with"} : Ctx(i, w)
                        \/ \E j \in H : Clone(i, j)
                        \/ Conv(i) \/ DropH(i) \/ Report(i)
                        \/ \E c \in C : Add(c, i, "add") \/ Add(c, i, "consume") \/ Consolidate(c, i) \/ ConsolidateOn(c, i)
        \/ \E c \in C : Pass(c, "consume") \/ Pass(c, "on") \/ Bail(c) \/ Discard(c) \/ DropC(c)
        \/ \E it \in Items : Enter(it) \/ EnterWrong(it) \/ In(it)
        \/ \E k \in {1, 2, 1024} : Cat(k)
        \/ Exit
Spec == Init /\ [][Next]_vars
Emit == hist' # hist => PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') >= MaxLen /\ hist' # hist => PrintT("@@" \o ToJson(hist'))
\* clones and only clones share an identity, and sharing means being equal
Shared == \A i, j \in H : h[i] # NONE /\ h[i].id = h[j].id => h[i] = h[j]
\* nothing reported is ever forgotten or reordered
Append2 == [][\A it \in Items : LET a == rep[it].errors b == rep'[it].errors IN Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a]_vars
OnlyReport == [][rep' # rep => Cur \in {it \in Items : rep[it] # rep'[it]} \/ scope' # scope]_vars
=================================================================================
