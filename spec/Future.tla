------------------------------- MODULE Future -------------------------------
(* Rust futures polled from C++, and the C++ wakers they keep (S08).

   A slot holds a future (absent, live, finished, or hollow: moved from).  Its
   captured argument dies exactly once: when the future finishes or is dropped
   (or it is the result).  A waker object of C++ belongs to one of four bases:
   counted by reference or copied on clone, for type-erased async functions
   (1, 2) or for DynFuture (3, 4).  Every handle of Rust holds one reference;
   polling borrows the reference of the driver and gives nothing back.

   Events: C clone, R wake by reference, X wake by value, D destroy, F the object
   is freed, v the value n dies, = the result, ? pending. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NS, NH, Bases, MaxVals, MaxObjs, MaxLen, MaxOps, Kinds, OpSet, Cmds

VARIABLES slots, hs, objs, own, made, hist
vars == <<slots, hs, objs, own, made, hist>>
View == <<slots, hs, objs, own, made>>

S == 1..NS
H == 1..NH
Absent == [k |-> "none", st |-> "absent", arg |-> 0, left |-> 0]
Dyn(k) == k = "dyn"
Steps(k) == IF k = "twice" THEN 2 ELSE 1
Deep(b) == b \in {2, 4}
ForDyn(b) == b \in {3, 4}

Init == /\ slots = [s \in S |-> Absent] /\ hs = [h \in H |-> 0]
        /\ objs = <<>> /\ own = [b \in Bases |-> 0] /\ made = 0 /\ hist = <<>>

T(x) == ToString(x)
\* ---- waker operations on a state [hs, objs, ev]
Add(st, e) == [st EXCEPT !.ev = @ \o e]
Clone(st, o) ==
  IF Deep(st.objs[o].base)
  THEN [st EXCEPT !.objs = Append(@, [base |-> st.objs[o].base, refs |-> 1]), !.ev = @ \o "C" \o T(o) \o " ", !.got = Len(st.objs) + 1]
  ELSE [st EXCEPT !.objs[o].refs = @ + 1, !.ev = @ \o "C" \o T(o) \o " ", !.got = o]
Unref(st, o, e) ==
  LET n == st.objs[o].refs - 1 IN
  [st EXCEPT !.objs[o].refs = n, !.ev = @ \o e \o (IF n = 0 THEN "F" \o T(o) \o " " ELSE "")]
Drop(st, o) == Unref(st, o, "D" \o T(o) \o " ")
Wake(st, o) == Unref(st, o, "X" \o T(o) \o " ")
Peek(st, o) == Add(st, "R" \o T(o) \o " ")

\* What the body of a future does with the waker o of its task.
Op(st, op, o) ==
  CASE op[1] = "r" -> Peek(st, o)
    [] op[1] = "w" -> LET a == Clone(st, o) IN Wake(a, a.got)
    [] op[1] = "d" -> LET a == Clone(st, o) IN Drop(a, a.got)
    [] op[1] = "c" -> LET a == Clone(st, o)       \* keep a clone, the old one goes
                          b == [a EXCEPT !.hs[op[2]] = a.got] IN
                      IF st.hs[op[2]] = 0 THEN b ELSE Drop(b, st.hs[op[2]])
    [] op[1] = "u" -> IF st.hs[op[2]] = o THEN st      \* keep the latest waker, unless it is the same
                      ELSE LET a == Clone(st, o)
                               b == [a EXCEPT !.hs[op[2]] = a.got] IN
                           IF st.hs[op[2]] = 0 THEN b ELSE Drop(b, st.hs[op[2]])
    [] OTHER -> st
RECURSIVE Run(_, _, _)
Run(st, ops, o) == IF ops = <<>> THEN st ELSE Run(Op(st, Head(ops), o), Tail(ops), o)

Segs == UNION {[1..n -> OpSet] : n \in 0..MaxOps}
P == <<"P", 0>>
R == <<"R", 0>>
One == {g \o <<e>> : g \in Segs, e \in {P, R}}
Short == UNION {[1..n -> OpSet] : n \in 0..1}
Two == {g \o <<P>> : g \in Short} \cup {g \o <<R>> \o f \o <<e>> : g \in Short, f \in Short, e \in {P, R}}
Scripts(n) == IF n = 1 THEN One ELSE Two
Ready(ops) == Cardinality({i \in 1..Len(ops) : ops[i] = R})

RECURSIVE Show(_)
Show(ops) == IF ops = <<>> THEN "" ELSE Head(ops)[1] \o (IF Head(ops)[2] = 0 THEN "" ELSE T(Head(ops)[2])) \o "," \o Show(Tail(ops))

St(ev) == [hs |-> hs, objs |-> objs, ev |-> ev, got |-> 0]
Log(cmd, ev) == hist' = Append(hist, <<cmd, ev>>)
Put(st, cmd) == /\ hs' = st.hs /\ objs' = st.objs /\ Log(cmd, st.ev)
Val(n) == "v" \o T(n) \o " "

\* What completion of a future of kind k with argument n says.
Result(k, n) ==
  CASE k = "echo" -> "=" \o T(n) \o " " \o Val(n)
    [] k \in {"val", "twice", "me"} -> Val(n) \o "=" \o T(n + 50) \o " " \o Val(n + 50)
    [] k = "ref" -> "=9 "
    [] k \in {"unit", "dyn"} -> Val(n) \o "= "
    [] OTHER -> Val(n) \o "=" \o T(n + 50) \o " "
Dies(k, n) == IF k = "ref" THEN "" ELSE Val(n)

Can(c) == c \in Cmds /\ Len(hist) < MaxLen
Base(b) == /\ Can("base") /\ own[b] = 0 /\ Len(objs) < MaxObjs
           /\ objs' = Append(objs, [base |-> b, refs |-> 1]) /\ own' = [own EXCEPT ![b] = Len(objs) + 1]
           /\ Log("b " \o T(b), "") /\ UNCHANGED <<slots, hs, made>>
\* The task of C++ goes away: its reference with it.
Release(b) == /\ Can("release") /\ own[b] # 0
              /\ Put(Unref(St(""), own[b], ""), "x " \o T(b)) /\ own' = [own EXCEPT ![b] = 0] /\ UNCHANGED <<slots, made>>
Create(s, k) == /\ Can("new") /\ slots[s].st = "absent" /\ made < MaxVals
                /\ made' = made + 1 /\ slots' = [slots EXCEPT ![s] = [k |-> k, st |-> "live", arg |-> made + 1, left |-> Steps(k)]]
                /\ Log("n " \o T(s) \o " " \o k \o " " \o T(made + 1), "") /\ UNCHANGED <<hs, objs, own>>
Poll(s, b, ops) ==
  LET f == slots[s] IN
  /\ Can("poll") /\ f.st = "live" /\ own[b] # 0 /\ ForDyn(b) = Dyn(f.k) /\ Len(objs) + Len(ops) <= MaxObjs
  /\ ops \in Scripts(f.left)
  /\ LET r == Ready(ops)
         a == Run(St(""), ops, own[b])
         fin == r = f.left IN
     /\ Put(Add(a, IF fin THEN Result(f.k, f.arg) ELSE "? "), "p " \o T(s) \o " " \o T(b) \o " " \o Show(ops))
     /\ slots' = [slots EXCEPT ![s] = IF fin THEN [@ EXCEPT !.st = "done", !.left = 0, !.arg = 0] ELSE [@ EXCEPT !.left = f.left - r]]
  /\ UNCHANGED <<own, made>>
\* A future that was moved from is pending for ever.
PollHollow(s, b) == /\ Can("poll") /\ slots[s].st = "hollow" /\ own[b] # 0 /\ ~ForDyn(b)
                    /\ Log("p " \o T(s) \o " " \o T(b) \o " ", "? ") /\ UNCHANGED <<slots, hs, objs, own, made>>
Move(s, t) == /\ Can("move") /\ slots[s].st # "absent" /\ slots[t].st = "absent"
              /\ slots' = [slots EXCEPT ![t] = slots[s], ![s] = [k |-> @.k, st |-> IF Dyn(@.k) THEN "done" ELSE "hollow", arg |-> 0, left |-> 0]]
              /\ Log("m " \o T(s) \o " " \o T(t), "") /\ UNCHANGED <<hs, objs, own, made>>
Drops(s) == /\ Can("drop") /\ slots[s].st # "absent"
            /\ slots' = [slots EXCEPT ![s] = Absent]
            /\ Log("d " \o T(s), IF slots[s].st = "live" THEN Dies(slots[s].k, slots[s].arg) ELSE "") /\ UNCHANGED <<hs, objs, own, made>>
Discard(s) == /\ Can("discard") /\ Dyn(slots[s].k) /\ slots[s].st # "absent"
              /\ slots' = [slots EXCEPT ![s].st = "done", ![s].arg = 0, ![s].left = 0]
              /\ Log("c " \o T(s), IF slots[s].st = "live" THEN Val(slots[s].arg) ELSE "") /\ UNCHANGED <<hs, objs, own, made>>
Ask(s) == /\ Can("ask") /\ Dyn(slots[s].k) /\ slots[s].st # "absent"
          /\ Log("q " \o T(s), IF slots[s].st = "live" THEN "0 " ELSE "1 ") /\ UNCHANGED <<slots, hs, objs, own, made>>
\* The Rust future is taken back (and dropped).
Take(s) == /\ Can("take") /\ Dyn(slots[s].k) /\ slots[s].st # "absent"
           /\ slots' = [slots EXCEPT ![s].st = "done", ![s].arg = 0, ![s].left = 0]
           /\ Log("t " \o T(s), IF slots[s].st = "live" THEN Val(slots[s].arg) \o "1 " ELSE "0 ") /\ UNCHANGED <<hs, objs, own, made>>
Handle(h, op) ==
  /\ Can("handle") /\ hs[h] # 0
  /\ LET o == hs[h]
         s0 == [St("") EXCEPT !.hs[h] = 0] IN
     CASE op = "r" -> Put(Peek(St(""), o), "hr " \o T(h))
       [] op = "w" -> Put(Wake(s0, o), "hw " \o T(h))
       [] op = "d" -> Put(Drop(s0, o), "hd " \o T(h))
  /\ UNCHANGED <<slots, own, made>>
HClone(h, k) == /\ Can("handle") /\ hs[h] # 0 /\ hs[k] = 0 /\ Len(objs) < MaxObjs
                /\ LET a == Clone(St(""), hs[h]) IN Put([a EXCEPT !.hs[k] = a.got], "hc " \o T(h) \o " " \o T(k))
                /\ UNCHANGED <<slots, own, made>>

Next == \/ \E b \in Bases : Base(b) \/ Release(b)
        \/ \E s \in S : (\E k \in Kinds : Create(s, k)) \/ Drops(s) \/ Discard(s) \/ Ask(s) \/ Take(s)
        \/ \E s \in S, t \in S : Move(s, t)
        \/ \E s \in S, b \in Bases : PollHollow(s, b)
        \/ \E s \in S, b \in Bases : slots[s].st = "live" /\ \E ops \in Scripts(slots[s].left) : Poll(s, b, ops)
        \/ \E h \in H : (\E op \in {"r", "w", "d"} : Handle(h, op)) \/ \E k \in H : HClone(h, k)
Spec == Init /\ [][Next]_vars

\* Every reference of a waker object has one holder: the driver or a handle; nothing else is alive.
Holders(o) == Cardinality({h \in H : hs[h] = o}) + Cardinality({b \in Bases : own[b] = o})
Counted == \A o \in 1..Len(objs) : objs[o].refs = Holders(o)
\* A copied waker has one holder.
Unique == \A o \in 1..Len(objs) : Deep(objs[o].base) => objs[o].refs <= 1
\* No waker in use was freed.
Alive == (\A h \in H : hs[h] # 0 => objs[hs[h]].refs > 0) /\ (\A b \in Bases : own[b] # 0 => objs[own[b]].refs > 0)
\* The argument of a future is alive as long as the future is, and in one place.
OneOwner == \A s, t \in S : s # t /\ slots[s].arg # 0 => slots[s].arg # slots[t].arg
LiveHasArg == \A s \in S : (slots[s].st = "live") = (slots[s].arg # 0)
\* A future that is not live never becomes live again in place.
NoRevival == [][\A s \in S : slots[s].st \in {"done", "hollow"} => slots'[s].st # "live"]_vars

Emit == hist' = hist \/ PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') < MaxLen \/ Emit
=============================================================================
