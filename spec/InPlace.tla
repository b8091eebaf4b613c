-------------------------------- MODULE InPlace --------------------------------
(* In-place construction (S01).

   A round is an operation on a destination (a fresh pinned place, a slot that
   persists between rounds, or a boxed cell) given a constructor expression.
   Phase "build" writes the expression down in preorder, phase "run" executes it
   one combinator at a time with a stack of frames, phase "rest" follows the
   operation's end.  A node that yields a value is the value's name.

   made: values that have been constructed.  dead: destroyed.  leaked: inside a
   ManuallyDrop whose holder is gone.  The rest is owned by the slot, the cell, a
   frame (fields already initialised), the value being returned, or - for values
   moved into a constructor - by a constructor that has not run yet. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxNodes, MaxRounds, Targets, Leaves, Combs, Types

VARIABLES prog, todo, phase, pc, frames, ret, slot, cell, made, dead, md, start, rounds, hist
vars == <<prog, todo, phase, pc, frames, ret, slot, cell, made, dead, md, start, rounds, hist>>
View == <<prog, todo, phase, pc, frames, ret, slot, cell, made, dead, md, start, rounds>>

NoRet == [out |-> "none", code |-> 0, objs |-> {}]
Ok(o) == [out |-> "ok", code |-> 0, objs |-> o]
Err(c) == [out |-> "err", code |-> c, objs |-> {}]
Panic == [out |-> "panic", code |-> 0, objs |-> {}]
Nothing == {}

F(t) == <<t, "F">>
I(t) == <<t, "I">>

\* What a node needs as children, by result type and whether the result can fail.
Kids(op, t) ==
  CASE op \in {"thenok", "thenerr", "thenpanic", "maperr", "unwrap", "expect", "ordefault", "ordefaultpanic"} -> <<F(t)>>
    [] op \in {"thenokI", "thenpanicI", "fallible"} -> <<I(t)>>
    [] op = "orelse" -> <<F(t), F(t)>>
    [] op = "orelseI" -> <<F(t), I(t)>>
    [] op = "P" -> <<I("L"), I("L")>>
    [] op = "T" -> <<I("L"), I("L"), I("L")>>
    [] op = "Q" -> <<I("P"), I("L"), I("M")>>
    [] op \in {"slotnew", "md"} -> <<I("L")>>
    [] op \in {"slotnewF", "mdF"} -> <<F("L")>>
    [] OTHER -> <<>>

MovedLeaves == {"moved", "rmoved"}
LeafOps == {"fn", "moved", "rmoved", "copy", "mov", "cmov", "byval"} \cap Leaves
Prods(t, m) ==
  ((IF m = "F" THEN {"err", "unreach", "thenok", "thenerr", "thenpanic", "maperr", "orelse", "fallible"}
                   \cup (IF t = "S" THEN {"slotnewF"} ELSE {}) \cup (IF t = "M" THEN {"mdF"} ELSE {})
   ELSE {"unreach", "thenokI", "thenpanicI", "unwrap", "expect", "orelseI"}
        \cup (CASE t = "L" -> {"ordefault", "ordefaultpanic"}
                [] t = "S" -> {"slotnew", "slotuninit"}
                [] t = "M" -> {"md"}
                [] OTHER -> {t})) \cap Combs)
  \cup (IF t = "L" /\ m = "I" THEN LeafOps ELSE {})

RECURSIVE EndOf(_), EndAll(_, _)
EndAll(i, n) == IF n = 0 THEN i ELSE EndAll(EndOf(i), n - 1)
EndOf(i) == EndAll(i + 1, Len(Kids(prog[i].op, prog[i].t)))
\* Values held by constructors that will never run.
Held(from, to) == {j \in from..(to - 1) : prog[j].op \in MovedLeaves}

\* Destroying values: those in a ManuallyDrop are not destroyed.
Kill(o) == dead \cup (o \ md)

Init == /\ prog = <<>> /\ todo = <<>> /\ phase = "rest" /\ pc = 0 /\ frames = <<>> /\ ret = NoRet
        /\ slot = Nothing /\ cell = Nothing /\ made = {} /\ dead = {} /\ md = {} /\ start = 0 /\ rounds = 0 /\ hist = <<>>

Fallible == {"tryemplace", "trybox", "tryrc", "tryarc", "tryreplace"}
Plain == {"emplace", "box", "rc", "arc", "replace", "makecell", "construct", "reconstruct"}
Places == {"emplace", "tryemplace", "box", "trybox", "rc", "tryrc", "arc", "tryarc"}
\* A bomb is a value whose destructor panics; only the slot ever holds one.
Bombs(o) == {j \in o : prog[j].op = "bomb"}

Note(op, t) == [op |-> op, t |-> t, m |-> "-"]
Obs(r, d, s, c) == [op |-> "obs", out |-> r.out, code |-> r.code, val |-> r.objs, dead |-> d, slot |-> s, cell |-> c, nodes |-> Len(prog')]

\* Begin an operation that takes a constructor.
Begin(op, t) ==
  /\ phase = "rest" /\ rounds < MaxRounds /\ op \in Targets
  /\ op \in Fallible \cup Plain
  /\ t \in (IF op \in Places THEN Types ELSE {"L"})
  /\ op = "reconstruct" => cell # Nothing
  /\ op = "makecell" => cell = Nothing
  /\ Len(prog) + 2 <= MaxNodes
  /\ prog' = Append(prog, [op |-> op, t |-> t])
  /\ hist' = Append(hist, Note(op, t))
  /\ todo' = <<IF op \in Fallible THEN F(t) ELSE I(t)>>
  /\ phase' = "build" /\ start' = Len(prog) + 1 /\ rounds' = rounds + 1
  /\ UNCHANGED <<pc, frames, ret, slot, cell, made, dead, md>>

Build(op) ==
  /\ phase = "build" /\ todo # <<>>
  /\ LET t == todo[1][1]
         m == todo[1][2]
         kids == Kids(op, t)
         root == Len(prog) = start
     IN /\ \/ op \in Prods(t, m)
           \/ op = "bomb" /\ op \in Leaves /\ root /\ prog[start].op = "replace" /\ Bombs(slot) = {}
        /\ prog[start].op = "reconstruct" => op \in LeafOps
        /\ Len(prog) + Len(todo) + Len(kids) <= MaxNodes
        /\ prog' = Append(prog, [op |-> op, t |-> t])
        /\ hist' = Append(hist, [op |-> op, t |-> t, m |-> m])
        /\ todo' = kids \o Tail(todo)
        /\ made' = made \cup (IF op \in MovedLeaves THEN {Len(prog) + 1} ELSE {})
  /\ UNCHANGED <<phase, pc, frames, ret, slot, cell, dead, md, start, rounds>>

\* The expression is complete: the operation first clears what it replaces.
Go ==
  /\ phase = "build" /\ todo = <<>>
  /\ LET op == prog[start].op
         old == IF op \in {"replace", "tryreplace"} THEN slot ELSE IF op = "reconstruct" THEN cell ELSE {}
         boom == Bombs(old) # {}
     IN /\ dead' = Kill(old) \cup (IF boom THEN Held(start + 1, Len(prog) + 1) ELSE {})
        /\ slot' = IF op \in {"replace", "tryreplace"} THEN Nothing ELSE slot
        /\ cell' = IF op = "reconstruct" THEN Nothing ELSE cell
        /\ ret' = IF boom THEN Panic ELSE NoRet
        /\ pc' = IF boom THEN 0 ELSE start + 1
  /\ phase' = "run" /\ frames' = <<>>
  /\ UNCHANGED <<prog, todo, made, md, start, rounds, hist>>

Enter ==
  /\ phase = "run" /\ ret.out = "none"
  /\ LET op == prog[pc].op IN
     CASE op \in LeafOps \cup {"bomb"} -> ret' = Ok({pc}) /\ made' = made \cup {pc} /\ UNCHANGED <<pc, frames>>
       [] op = "err" -> ret' = Err(pc) /\ UNCHANGED <<pc, frames, made>>
       [] op = "unreach" -> ret' = Panic /\ UNCHANGED <<pc, frames, made>>
       [] op = "slotuninit" -> ret' = Ok({}) /\ UNCHANGED <<pc, frames, made>>
       [] OTHER -> frames' = Append(frames, [n |-> pc, k |-> 1, at |-> pc + 1, got |-> {}]) /\ pc' = pc + 1 /\ UNCHANGED <<ret, made>>
  /\ UNCHANGED <<prog, todo, phase, slot, cell, dead, md, start, rounds, hist>>

Top == frames[Len(frames)]
Pop == SubSeq(frames, 1, Len(frames) - 1)

Return ==
  /\ phase = "run" /\ ret.out # "none" /\ frames # <<>>
  /\ LET f == Top
         op == prog[f.n].op
         n == f.n
         nk == Len(Kids(op, prog[n].t))
         next == EndOf(f.at)
     IN CASE op \in {"P", "T", "Q"} ->
              IF ret.out = "ok"
              THEN IF f.k < nk
                   THEN /\ frames' = Append(Pop, [f EXCEPT !.k = @ + 1, !.at = next, !.got = @ \cup ret.objs])
                        /\ pc' = next /\ ret' = NoRet /\ UNCHANGED <<made, dead, md>>
                   ELSE /\ frames' = Pop /\ UNCHANGED <<pc, dead, md>>
                        /\ ret' = Ok(f.got \cup ret.objs \cup (IF op = "T" THEN {} ELSE {n}))
                        /\ made' = made \cup (IF op = "T" THEN {} ELSE {n})
              ELSE /\ frames' = Pop /\ UNCHANGED <<pc, ret, made, md>>
                   /\ dead' = Kill(f.got) \cup Held(next, EndOf(n))
          [] op \in {"orelse", "orelseI"} ->
              IF f.k = 1 /\ ret.out = "err"
              THEN /\ frames' = Append(Pop, [f EXCEPT !.k = 2, !.at = next])
                   /\ pc' = next /\ ret' = NoRet /\ UNCHANGED <<made, dead, md>>
              ELSE /\ frames' = Pop /\ UNCHANGED <<pc, ret, made, md>>
                   /\ dead' = dead \cup (IF f.k = 1 THEN Held(next, EndOf(n)) ELSE {})
          [] op \in {"thenerr", "thenpanic", "thenpanicI"} ->
              /\ frames' = Pop /\ UNCHANGED <<pc, made, md>>
              /\ ret' = IF ret.out # "ok" THEN ret ELSE IF op = "thenerr" THEN Err(n) ELSE Panic
              /\ dead' = Kill(ret.objs)
          [] op = "maperr" ->
              /\ frames' = Pop /\ UNCHANGED <<pc, made, dead, md>>
              /\ ret' = IF ret.out = "err" THEN Err(ret.code + 1000) ELSE ret
          [] op \in {"unwrap", "expect", "ordefaultpanic"} ->
              /\ frames' = Pop /\ UNCHANGED <<pc, made, dead, md>>
              /\ ret' = IF ret.out = "err" THEN Panic ELSE ret
          [] op = "ordefault" ->
              /\ frames' = Pop /\ UNCHANGED <<pc, dead, md>>
              /\ ret' = IF ret.out = "err" THEN Ok({n}) ELSE ret
              /\ made' = IF ret.out = "err" THEN made \cup {n} ELSE made
          [] op \in {"md", "mdF"} ->
              /\ frames' = Pop /\ UNCHANGED <<pc, ret, made, dead>>
              /\ md' = md \cup ret.objs
          [] OTHER -> frames' = Pop /\ UNCHANGED <<pc, ret, made, dead, md>>
  /\ UNCHANGED <<prog, todo, phase, slot, cell, start, rounds, hist>>

\* The operation ends; values in fresh places are looked at and destroyed.
Finish ==
  /\ phase = "run" /\ ret.out # "none" /\ frames = <<>>
  /\ LET op == prog[start].op
         keep == op \in {"replace", "tryreplace", "makecell", "reconstruct"}
     IN /\ slot' = IF op \in {"replace", "tryreplace"} THEN ret.objs ELSE slot
        /\ cell' = IF op \in {"makecell", "reconstruct"} THEN ret.objs ELSE cell
        /\ dead' = IF keep THEN dead ELSE Kill(ret.objs)
  /\ phase' = "rest" /\ ret' = NoRet /\ pc' = 0
  /\ UNCHANGED <<prog, todo, frames, made, md, start, rounds>>
  /\ hist' = Append(hist, Obs(ret, dead', slot', cell'))

\* Operations without a constructor.
Simple(op, s, c, d, new, r) ==
  /\ phase = "rest" /\ rounds < MaxRounds /\ op \in Targets /\ Len(prog) < MaxNodes
  /\ prog' = Append(prog, [op |-> op, t |-> "L"])
  /\ slot' = s /\ cell' = c /\ dead' = d /\ made' = made \cup new
  /\ rounds' = rounds + 1
  /\ hist' = hist \o <<Note(op, "L"), Obs(r, d, s, c)>>
  /\ UNCHANGED <<todo, phase, pc, frames, ret, md, start>>
Here == Len(prog) + 1
Outcome(o) == IF Bombs(o) # {} THEN Panic ELSE Ok({})
Clear == \E op \in {"clear", "slotdrop"} : Simple(op, Nothing, cell, Kill(slot), {}, Outcome(slot))
Look == slot # Nothing /\ Simple("look", slot, cell, dead, {}, Ok(slot))
Assign == cell # Nothing /\ \E op \in {"acopy", "aref", "amov", "acmov"} : Simple(op, slot, {Here}, Kill(cell), {Here}, Ok({}))
DropCell == cell # Nothing /\ Simple("dropcell", slot, Nothing, Kill(cell), {}, Ok({}))

Next == \/ \E op \in Fallible \cup Plain, t \in Types \cup {"L"} : Begin(op, t)
        \/ \E op \in Combs \cup Leaves : Build(op)
        \/ Go \/ Enter \/ Return \/ Finish
        \/ Clear \/ Look \/ Assign \/ DropCell
Spec == Init /\ [][Next]_vars

InFrames == UNION {frames[i].got : i \in 1..Len(frames)}
\* Values whose constructor has not run yet, in the part of the expression not reached.
Waiting == IF phase = "rest" THEN {} ELSE {j \in (start + 1)..Len(prog) : prog[j].op \in MovedLeaves} \ (dead \cup InFrames \cup ret.objs)
Owned == slot \cup cell \cup InFrames \cup ret.objs
DeadNotOwned == (dead \cap Owned) = {}
OnceInFrames == \A i, j \in 1..Len(frames) : i # j => frames[i].got \cap frames[j].got = {}
OneOwner == /\ slot \cap cell = {} /\ (slot \cup cell) \cap (InFrames \cup ret.objs) = {} /\ InFrames \cap ret.objs = {}
NotMadeNotDead == dead \subseteq made /\ Owned \subseteq made
\* Nothing is forgotten but what a ManuallyDrop held.
NothingLost == phase = "rest" => (made \ (dead \cup Owned)) \subseteq md
FailureLeavesNothing == (phase = "run" /\ ret.out \in {"err", "panic"}) => ret.objs = {}
DeadStays == [][dead \subseteq dead']_vars

Emit == (Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "obs") => PrintT("@@" \o ToJson(hist'))
EmitLast == (rounds' = MaxRounds /\ phase' = "rest" /\ phase # "rest") => PrintT("@@" \o ToJson(hist'))
================================================================================
