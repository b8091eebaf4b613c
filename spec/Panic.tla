------------------------------- MODULE Panic -------------------------------
(* Rust panics and the boundary to C++.

   A stack of frames, C++ and Rust in turn: C++ calls Rust through a generated binding
   (of one of Kinds), Rust calls C++ back. A Rust frame may open catch_unwind regions.
   A panic unwinds to the innermost open region of the frame that panicked; without one
   it must not leave the frame: the process is over, whatever regions the Rust frames
   below the calling C++ frame have open.

   The history is the script that ran, one step a letter (for the driver to repeat),
   mixed with what must be observed: "x" a call came back to C++, "y" a call came back
   to Rust, "h" a region caught its panic. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Kinds, Panics, MaxSteps, MaxDepth, MaxRegions

VARIABLES stack,      \* frames: [lang, open] with the number of open regions
          state,      \* "run", "done" or "abort"
          steps, hist
vars == <<stack, state, steps, hist>>
View == <<stack, state, steps, hist>>

Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
With(f) == Append(Below, f)
In(l) == state = "run" /\ Len(stack) > 0 /\ Top.lang = l
\* room to close everything that is open
Cost(s) == Len(s) + (IF Len(s) = 0 THEN 0 ELSE s[Len(s)].open)
Open == LET RECURSIVE sum(_) sum(i) == IF i = 0 THEN 0 ELSE 1 + stack[i].open + sum(i - 1) IN sum(Len(stack))
Room(n) == steps + 1 + Open + n <= MaxSteps

Init == stack = << [lang |-> "C", open |-> 0] >> /\ state = "run" /\ steps = 0 /\ hist = << >>

Step(s, st, w) == stack' = s /\ state' = st /\ hist' = hist \o w /\ steps' = steps + 1

\* C++ calls a binding
Call == In("C") /\ Len(stack) < MaxDepth /\ Room(1)
        /\ \E k \in Kinds : Step(Append(stack, [lang |-> "R", open |-> 0]), "run", << "k" \o k >>)
CppReturn == In("C") /\ (IF Len(stack) = 1 THEN Step(<< >>, "done", <<"r">>) ELSE Step(Below, "run", <<"r", "y">>))
Callback == In("R") /\ Len(stack) < MaxDepth /\ Room(1) /\ Step(Append(stack, [lang |-> "C", open |-> 0]), "run", <<"c">>)
RustReturn == In("R") /\ Top.open = 0 /\ Step(Below, "run", <<"r", "x">>)
OpenRegion == In("R") /\ Top.open < MaxRegions /\ Room(1) /\ Step(With([Top EXCEPT !.open = @ + 1]), "run", <<"[">>)
CloseRegion == In("R") /\ Top.open > 0 /\ Step(With([Top EXCEPT !.open = @ - 1]), "run", <<"]">>)
Panic == In("R") /\ \E p \in Panics :
            IF Top.open > 0 THEN Step(With([Top EXCEPT !.open = @ - 1]), "run", <<p, "h">>)
            ELSE Step(stack, "abort", <<p>>)

Next == Call \/ CppReturn \/ Callback \/ RustReturn \/ OpenRegion \/ CloseRegion \/ Panic
Spec == Init /\ [][Next]_vars

Alternate == \A i \in 1..Len(stack) : stack[i].lang = (IF i % 2 = 1 THEN "C" ELSE "R")
\* Nothing happens after the abort, and the frames below are as they were: no one saw the call end.
Over == [][state # "run" => UNCHANGED vars]_vars
\* A frame only ever sees the return of the frame right above it, or its own panic.
OwnPanics == [][(\A i \in 1..Len(stack) : i < Len(stack) => (i <= Len(stack') => stack'[i] = stack[i]))]_vars
CppKeepsNothing == \A i \in 1..Len(stack) : stack[i].lang = "C" => stack[i].open = 0

Emit == state' # "run" => PrintT("@@" \o ToJson(hist' \o << state' >>))
=============================================================================
