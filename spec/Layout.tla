------------------------------- MODULE Layout -------------------------------
(* Structs, tuple structs and unions that C++ and Rust share field by field.

   A shape has fields. A field has a class (what moving out of it leaves behind, and whether
   it owns something), nv values (0 is the default value), and is seen from C++ or not: fields
   that are private, or whose type C++ cannot name, are only seen from Rust.
     prim  copied            bits  generated class, not copyable, owns nothing
     copy  generated class, copied
     dflt  owns, has a default (left behind by a move)       both  the same, clonable
     clone owns, clonable: a move is a clone                 fixed owns, immovable in C++
     blob  copied, has no C++ type        blobc  clonable, owns, has no C++ type
     blobn not copyable, owns nothing, has no C++ type       zst   takes no room at all

   Two objects lie next to each other in memory. obj[i] is << >> before construction and
   after destruction, else what each field holds: in a struct all of them, in a union the
   one written last (the others are -1). A step changes the fields it names and no others,
   whichever language takes it, and both languages then see the same.

   Module LayoutOf says where the fields may lie. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,   \* sequence of [union: BOOLEAN, fields: << [cls, nv, seen, own: payloads in each value] >>, dflt, clone, copy, refs: BOOLEAN,
            \*   new: a tuple struct that C++ can make]
          MaxSteps,
          Sample,   \* how many objects to choose from for each new one; 0: all there are
          Objects,
          Targets   \* the objects that single-object steps work on

VARIABLES shape, obj, steps, hist
vars == <<shape, obj, steps, hist>>
View == <<shape, obj>>

S == Shapes[shape]
F == S.fields
Fs == DOMAIN F
None == << >>
Live(i) == obj[i] # None
Dead(i) == obj[i] = None
Both == 1..Objects

Owns(c) == c \in {"dflt", "both", "clone", "fixed", "blobc"}
Copies(c) == c \in {"prim", "copy", "blob", "zst"}
Clones(c) == Copies(c) \/ c \in {"both", "clone", "blobc"}
Moves(c) == c # "fixed"
HOwns == \E f \in Fs : Owns(F[f].cls)
HMove == S.copy \/ ~HOwns \/ S.dflt \/ S.clone
HClone == S.copy \/ S.clone

Vals(f) == 0..(F[f].nv - 1)
\* every object a shape has
Whole(f, x) == [g \in Fs |-> IF g = f THEN x ELSE -1]
All == IF S.union THEN UNION {{Whole(f, x) : x \in Vals(f)} : f \in Fs}
       ELSE LET RECURSIVE up(_)
                up(k) == IF k = 0 THEN {<< >>} ELSE {Append(o, x) : o \in up(k - 1), x \in Vals(k)}
            IN up(Len(F))
\* all of them, or in random walks a few
Some == IF Sample = 0 THEN All
        ELSE IF S.union THEN {LET f == RandomElement(Fs) IN Whole(f, RandomElement(Vals(f))) : k \in 1..Sample}
        ELSE {[f \in Fs |-> RandomElement(Vals(f))] : k \in 1..Sample}
\* x in field f
Put(o, f, x) == IF S.union THEN Whole(f, x) ELSE [o EXCEPT ![f] = x]
Holds(i, f) == Live(i) /\ obj[i][f] >= 0

\* what a field is after it was moved to one that held y
LeftA(c, x, y) == IF c \in {"dflt", "both"} THEN y ELSE x
\* what an object is after it was moved from, by construction and by assignment
Dflt == [f \in Fs |-> 0]
HLeft(o) == IF ~S.copy /\ HOwns /\ S.dflt THEN Dflt ELSE o
HLeftA(o, p) == IF ~S.copy /\ HOwns /\ S.dflt THEN p ELSE o

\* how many payloads that count themselves are alive
Count(o) == LET at(i, k) == IF o[i][k] < 0 THEN 0 ELSE F[k].own[o[i][k] + 1]
                RECURSIVE sum(_, _)
                sum(i, k) == IF k = 0 \/ o[i] = None THEN 0 ELSE at(i, k) + sum(i, k - 1)
                RECURSIVE all(_)
                all(i) == IF i = 0 THEN 0 ELSE sum(i, Len(F)) + all(i - 1)
            IN all(Objects)

Init == shape \in DOMAIN Shapes /\ obj = [i \in Both |-> None] /\ steps = 0 /\ hist = << >>

Do(op, i, j, f, x, o, res) ==
    /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED shape
    /\ obj' = o
    /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, f |-> f, x |-> x, res |-> res, obj |-> o, live |-> Count(o)])
Set(i, o) == [obj EXCEPT ![i] = o]

\* ---- made in Rust and given to C++; the arguments are what is in the fields
Give == \E i \in Both : Dead(i) /\ \E o \in Some : Do("give", i, 0, 0, 0, Set(i, o), 0)
\* made in C++ from its fields
New == S.new /\ \E i \in Both : Dead(i) /\ \E o \in Some : Do("new", i, 0, 0, 0, Set(i, o), 0)
Destroy == \E i \in Both : Live(i) /\ Do("kill", i, 0, 0, 0, Set(i, None), 0)

\* ---- one field, written by Rust; by C++ (which sees what became of the temporary);
\*      by Rust through C++'s address of the field; by C++ through Rust's reference to it
WriteR == \E i \in Targets : Live(i) /\ \E f \in Fs : \E x \in Vals(f) : F[f].cls # "zst" /\ Do("setr", i, 0, f, x, Set(i, Put(obj[i], f, x)), 0)
WriteC == \E i \in Targets : Live(i) /\ \E f \in Fs : F[f].seen /\ Moves(F[f].cls) /\ \E x \in Vals(f) :
             Do("setc", i, 0, f, x, Set(i, Put(obj[i], f, x)), LeftA(F[f].cls, x, obj[i][f]))
ViaC == \E i \in Targets : Live(i) /\ S.refs /\ \E f \in Fs : F[f].seen /\ Holds(i, f) /\ \E x \in Vals(f) :
             Do("viac", i, 0, f, x, Set(i, Put(obj[i], f, x)), 0)
ViaR == \E i \in Targets : Live(i) /\ S.refs /\ \E f \in Fs : F[f].seen /\ Holds(i, f) /\ Moves(F[f].cls) /\ \E x \in Vals(f) :
             Do("viar", i, 0, f, x, Set(i, Put(obj[i], f, x)), LeftA(F[f].cls, x, obj[i][f]))
\* ---- one field of one object to the same field of another
Copied(c) == c \in {"prim", "copy", "both", "clone"}
FieldCopy == \E i, j \in Both : Live(i) /\ \E f \in Fs : F[f].seen /\ Copied(F[f].cls) /\ Holds(j, f) /\ (S.union => i # j)
                /\ Do("fcopy", i, j, f, 0, Set(i, Put(obj[i], f, obj[j][f])), 0)
FieldMove == \E i, j \in Both : Live(i) /\ \E f \in Fs : F[f].seen /\ Moves(F[f].cls) /\ Holds(i, f) /\ Holds(j, f)
                /\ Do("fmove", i, j, f, 0, IF i = j THEN obj ELSE [obj EXCEPT ![i] = Put(obj[i], f, obj[j][f]), ![j] = Put(obj[j], f, LeftA(F[f].cls, obj[j][f], obj[i][f]))], 0)
\* ---- whole objects
CopyNew == \E i, j \in Both : HClone /\ Dead(i) /\ Live(j) /\ Do("copy", i, j, 0, 0, Set(i, obj[j]), 0)
CopyAssign == \E i, j \in Both : HClone /\ Live(i) /\ Live(j) /\ Do("copya", i, j, 0, 0, Set(i, obj[j]), 0)
MoveNew(op) == \E i, j \in Both : HMove /\ Dead(i) /\ Live(j) /\ Do(op, i, j, 0, 0, [obj EXCEPT ![i] = obj[j], ![j] = HLeft(obj[j])], 0)
MoveAssign == \E i, j \in Both : HMove /\ Live(i) /\ Live(j) /\ Do("movea", i, j, 0, 0, IF i = j THEN obj ELSE [obj EXCEPT ![i] = obj[j], ![j] = HLeftA(obj[j], obj[i])], 0)
Default == \E i \in Targets : S.dflt /\ Dead(i) /\ Do("dflt", i, 0, 0, 0, Set(i, Dflt), 0)
SwapR == \E i, j \in Both : i < j /\ Live(i) /\ Live(j) /\ Do("swapr", i, j, 0, 0, [obj EXCEPT ![i] = obj[j], ![j] = obj[i]], 0)
SwapC == \E i, j \in Both : i < j /\ HMove /\ Live(i) /\ Live(j) /\ Do("swapc", i, j, 0, 0, [obj EXCEPT ![i] = obj[j], ![j] = obj[i]], 0)

Next == \/ Give \/ New \/ Destroy \/ WriteR \/ WriteC \/ ViaC \/ ViaR \/ FieldCopy \/ FieldMove
        \/ CopyNew \/ CopyAssign \/ MoveNew("move") \/ MoveNew("id") \/ MoveAssign \/ Default \/ SwapR \/ SwapC
Spec == Init /\ [][Next]_vars

Typed == \A i \in Both : obj[i] = None \/ (DOMAIN obj[i] = Fs /\ \A f \in Fs : obj[i][f] \in Vals(f) \cup (IF S.union THEN {-1} ELSE {}))
OneActive == \A i \in Both : S.union /\ Live(i) => Cardinality({f \in Fs : obj[i][f] >= 0}) = 1
Last == hist'[Len(hist')]
\* a step touches the objects it names, and only those
Named == [][\A i \in Both : obj'[i] # obj[i] => i \in {Last.i, Last.j}]_vars
\* a step on a field leaves the other fields of a struct alone
OneField == [][Last.f # 0 /\ ~S.union => \A i \in Both, f \in Fs : Live(i) /\ f # Last.f => obj'[i][f] = obj[i][f]]_vars
\* C++ alone never changes what it does not see, except by replacing the whole object
HiddenKept == [][Last.op \in {"setc", "viac", "viar", "fcopy", "fmove"} /\ ~S.union => \A i \in Both, f \in Fs : Live(i) /\ ~F[f].seen => obj'[i][f] = obj[i][f]]_vars
\* without Copy or Clone no value is duplicated
NoForgery == [][~HClone /\ HOwns /\ Last.op \in {"move", "id", "movea", "swapr", "swapc"} =>
    \A f \in Fs : \A x \in 1..2 : Cardinality({i \in Both : obj'[i] # None /\ obj'[i][f] = x}) = Cardinality({i \in Both : obj[i] # None /\ obj[i][f] = x})]_vars

Emit == PrintT("@@" \o ToJson(<<[shape |-> shape, copy |-> HClone, move |-> HMove, dflt |-> S.dflt]>> \o hist'))
EmitLast == steps' = MaxSteps => Emit
=============================================================================
