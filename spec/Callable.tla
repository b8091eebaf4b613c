------------------------------- MODULE Callable -------------------------------
(* Callables that cross the language boundary (S07).

   A target is a Rust closure with captured state.  It is owned by exactly one
   of: a C++ slot (rs_std::DynCallable), an AnyInvocable slot converted from
   one, or a Rust box.  Slots are absent (no object), empty, hold a target, or
   are spent (an FnOnce that was called).  Every operation moves ownership,
   invokes or destroys; a target's captured state is destroyed exactly when its
   owner is.  Signatures: "fn" (callable any number of times, state fixed),
   "mut" (state advances on each call), "once" (the call consumes the target). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NS, NA, NB, NT, MaxLen, MaxCalls, Ops, Sigs, Shapes

VARIABLES sig, shape, slot, any, box, made, dead, calls, hist
vars == <<sig, shape, slot, any, box, made, dead, calls, hist>>
View == <<sig, shape, slot, any, box, made, dead, calls>>

Absent == [k |-> "absent", t |-> 0]
Void == [k |-> "none", t |-> 0]
Spent == [k |-> "spent", t |-> 0]
Dud == [k |-> "dud", t |-> 0]
Val(t) == [k |-> "val", t |-> t]

S == 1..NS
A == 1..NA
B == 1..NB

Init == /\ sig \in Sigs /\ shape \in Shapes
        /\ slot = [s \in S |-> Absent] /\ any = [a \in A |-> Absent] /\ box = [b \in B |-> Absent]
        /\ made = 0 /\ dead = {} /\ calls = [t \in 1..NT |-> 0] /\ hist = <<>>

Owned(sl, an, bx) == {sl[s].t : s \in S} \cup {an[a].t : a \in A} \cup {bx[b].t : b \in B}

\* The common part of every step: new ownership; whoever lost its owner is destroyed.
Step(op, i, j, x, ret, sl, an, bx, m, cl) ==
  /\ op \in Ops
  /\ Len(hist) < MaxLen
  /\ slot' = sl /\ any' = an /\ box' = bx /\ made' = m /\ calls' = cl
  /\ dead' = (1..m) \ Owned(sl, an, bx)
  /\ UNCHANGED <<sig, shape>>
  /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, x |-> x, ret |-> ret,
                           dead |-> [t \in 1..NT |-> t \in dead'],
                           slots |-> [s \in S |-> sl[s].k], anys |-> [a \in A |-> an[a].k]])

Old(op, i, j, x, ret, sl, an, bx) == Step(op, i, j, x, ret, sl, an, bx, made, calls)

\* What a call of target t with argument x returns.
Result(t, x) == x + (10 * t) + (IF sig = "mut" THEN 100 * (calls[t] + 1) ELSE 0)
Called(t) == [calls EXCEPT ![t] = @ + 1]

\* A Rust closure is made and handed to C++, which constructs or assigns a slot from it.
Make(s, op) ==
  /\ made < NT
  /\ (op = "new") <=> (slot[s].k = "absent")
  /\ Step(op, s, made + 1, 0, 0, [slot EXCEPT ![s] = Val(made + 1)], any, box, made + 1, calls)
\* ... or kept in a Rust box.
MakeBox(b) == /\ made < NT /\ box[b].k = "absent"
              /\ Step("makebox", b, made + 1, 0, 0, slot, any, [box EXCEPT ![b] = Val(made + 1)], made + 1, calls)
Default(s, op) == slot[s].k = "absent" /\ Old(op, s, 0, 0, 0, [slot EXCEPT ![s] = Void], any, box)
MoveNew(s, t) == /\ slot[s].k = "absent" /\ slot[t].k # "absent"
                 /\ Old("movenew", s, t, 0, 0, [slot EXCEPT ![s] = slot[t], ![t] = Void], any, box)
MoveAssign(s, t) == /\ s # t /\ slot[s].k # "absent" /\ slot[t].k # "absent"
                    /\ Old("moveassign", s, t, 0, 0, [slot EXCEPT ![s] = slot[t], ![t] = Void], any, box)
\* Moving a slot onto itself leaves something unspecified; it is destroyed at once.
SelfMove(s) == slot[s].k # "absent" /\ Old("selfmove", s, 0, 0, 0, [slot EXCEPT ![s] = Absent], any, box)
Null(s) == slot[s].k # "absent" /\ Old("null", s, 0, 0, 0, [slot EXCEPT ![s] = Void], any, box)
Swap(s, t, op) == /\ s # t /\ slot[s].k # "absent" /\ slot[t].k # "absent"
                  /\ Old(op, s, t, 0, 0, [slot EXCEPT ![s] = slot[t], ![t] = slot[s]], any, box)
Destroy(s) == slot[s].k # "absent" /\ Old("destroy", s, 0, 0, 0, [slot EXCEPT ![s] = Absent], any, box)

CanCall(t) == calls[t] < MaxCalls
\* A call; "callconst" goes through a const reference, "reset" and "unmake" are FnOnce
\* bodies that empty or destroy the slot they were called through.
Call(s, x, op) ==
  /\ slot[s].k = "val" /\ CanCall(slot[s].t)
  /\ op = "callconst" => sig = "fn"
  /\ op \in {"reset", "unmake"} => sig = "once"
  /\ Step(op, s, slot[s].t, x, Result(slot[s].t, x),
          [slot EXCEPT ![s] = IF sig # "once" THEN @ ELSE IF op = "reset" THEN Void ELSE IF op = "unmake" THEN Absent ELSE Spent],
          any, box, made, Called(slot[s].t))
\* Calling a spent FnOnce ends the program.
CallSpent(s) == slot[s].k = "spent" /\ Old("callspent", s, 0, 0, 0, slot, any, box)

ToAny(s, a) == /\ slot[s].k # "absent" /\ any[a].k = "absent"
               /\ Old("toany", s, a, 0, 0, [slot EXCEPT ![s] = Void], [any EXCEPT ![a] = slot[s]], box)
CallAny(a, x) == /\ any[a].k = "val" /\ CanCall(any[a].t)
                 /\ Step("callany", a, any[a].t, x, Result(any[a].t, x), slot,
                         [any EXCEPT ![a] = IF sig = "once" THEN Spent ELSE @], box, made, Called(any[a].t))
MoveAny(a, c) == /\ a # c /\ any[a].k = "absent" /\ any[c].k # "absent"
                 /\ Old("moveany", a, c, 0, 0, slot, [any EXCEPT ![a] = any[c], ![c] = Void], box)
DestroyAny(a) == any[a].k # "absent" /\ Old("destroyany", a, 0, 0, 0, slot, [any EXCEPT ![a] = Absent], box)
\* An AnyInvocable that holds a Rust target gives the box itself back to Rust.
AnyToRust(a, b) == /\ any[a].k = "val" /\ box[b].k = "absent"
                   /\ Old("anytorust", a, b, 0, 0, slot, [any EXCEPT ![a] = Void], [box EXCEPT ![b] = any[a]])

\* To Rust: an empty or spent callable becomes a box that panics when called.
ToRust(s, b) == /\ slot[s].k # "absent" /\ box[b].k = "absent"
                /\ Old("torust", s, b, 0, 0, [slot EXCEPT ![s] = Void], any,
                       [box EXCEPT ![b] = IF slot[s].k = "val" THEN slot[s] ELSE Dud])
CallBox(b, x) ==
  \/ /\ box[b].k = "val" /\ CanCall(box[b].t)
     /\ Step("callbox", b, box[b].t, x, Result(box[b].t, x), slot, any,
             [box EXCEPT ![b] = IF sig = "once" THEN Absent ELSE @], made, Called(box[b].t))
  \/ /\ box[b].k = "dud"
     /\ Old("calldud", b, 0, x, 0, slot, any, [box EXCEPT ![b] = IF sig = "once" THEN Absent ELSE @])
DropBox(b) == box[b].k # "absent" /\ Old("dropbox", b, 0, 0, 0, slot, any, [box EXCEPT ![b] = Absent])
BoxToCpp(b, s) == /\ box[b].k = "val" /\ slot[s].k # "absent"
                  /\ Old("boxtocpp", b, s, 0, 0, [slot EXCEPT ![s] = box[b]], any, [box EXCEPT ![b] = Absent])

Args == {1, 7}
Next ==
  \/ \E s \in S : \/ Make(s, "new") \/ Make(s, "assign") \/ Default(s, "default") \/ Default(s, "nullptr")
                  \/ SelfMove(s) \/ Null(s) \/ Destroy(s) \/ CallSpent(s)
                  \/ \E x \in Args, op \in {"call", "callconst", "reset", "unmake"} : Call(s, x, op)
                  \/ \E t \in S : MoveNew(s, t) \/ MoveAssign(s, t) \/ Swap(s, t, "swap") \/ Swap(s, t, "stdswap") \/ Swap(s, t, "adlswap")
                  \/ \E a \in A : ToAny(s, a)
                  \/ \E b \in B : ToRust(s, b) \/ BoxToCpp(b, s)
  \/ \E a \in A : \/ DestroyAny(a) \/ \E x \in Args : CallAny(a, x)
                  \/ \E c \in A : MoveAny(a, c)
                  \/ \E b \in B : AnyToRust(a, b)
  \/ \E b \in B : MakeBox(b) \/ DropBox(b) \/ \E x \in Args : CallBox(b, x)

Spec == Init /\ [][Next]_vars

Owners(t) == Cardinality({s \in S : slot[s].t = t}) + Cardinality({a \in A : any[a].t = t}) + Cardinality({b \in B : box[b].t = t})
TypeOK == /\ \A s \in S : slot[s].k \in {"absent", "none", "val", "spent"}
          /\ \A s \in S : (slot[s].k = "val") <=> (slot[s].t # 0)
OneOwner == \A t \in 1..made : Owners(t) = (IF t \in dead THEN 0 ELSE 1)
OnceCalledOnce == sig = "once" => \A t \in 1..NT : calls[t] <= 1 /\ (calls[t] = 1 => t \in dead)
DeadStaysDead == [][dead \subseteq dead']_vars
CallsOnlyLive == [][\A t \in 1..NT : calls'[t] # calls[t] => (t \notin dead /\ t <= made)]_vars

Emit == PrintT("@@" \o ToJson(<<[sig |-> sig, shape |-> shape]>> \o hist'))
EmitLast == Len(hist') < MaxLen \/ Emit
===============================================================================
