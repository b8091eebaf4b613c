------------------------------ MODULE Variant ------------------------------
(* Enum-like values that C++ and Rust look at together: Option, Result and bound enums.

   A holder of kind K is in one of Len(K.vars) variants; a variant has a payload of a class
   (or none), whose value is one of 0 .. nv-1 (0 is the default value). Classes differ in
   what moving out of a payload leaves behind and in whether payloads own something:
     prim   not a generated class, copied                      copy    generated class, copied
     bits   generated class, not copyable, owns nothing
     dflt   owns, has a default (left behind by a move)        both    the same, clonable
     clone  owns, clonable, no default: a move is a clone      fixed   owns, immovable in C++
     none   no payload

   Two C++ objects hold holders; obj[i] is << >> before construction and after
   destruction, else <<variant, value>>. Every step says what it returns (res); the driver
   then looks at each object from both languages and at the number of live payloads. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,      \* sequence of [form, vars: << [cls, nv, make] >>, dflt: default variant or 0, clone: BOOLEAN, copy: BOOLEAN]
          Objects, MaxSteps, Sample,
          Targets   \* the objects that single-object steps work on

VARIABLES kind, obj, steps, hist
vars == <<kind, obj, steps, hist>>
View == <<kind, obj>>

K == Kinds[kind]
Opt == K.form = "option"
Res == K.form = "result"
Enum == K.form \in {"enum", "reprc"}
P(v) == K.vars[v]
Owns(c) == c \in {"dflt", "both", "clone", "fixed"}
Copies(c) == c \in {"prim", "copy", "none"}
Clones(c) == Copies(c) \/ c \in {"both", "clone"}
Moves(c) == c # "fixed"
Classes == {K.vars[v].cls : v \in DOMAIN K.vars}

\* the holder as a class
HOwns == \E c \in Classes : Owns(c)
HCopy == IF Enum THEN K.copy ELSE \A c \in Classes : Copies(c)
HClone == IF Enum THEN K.clone \/ K.copy ELSE \A c \in Classes : Clones(c)
HDflt == IF Opt THEN 1 ELSE IF Res THEN 0 ELSE K.dflt
HMove == HCopy \/ ~HOwns \/ HDflt # 0 \/ HClone

None == << >>
Vals(v) == 0..(P(v).nv - 1)
Values == {<<v, x>> : v \in DOMAIN K.vars, x \in 0..2}
Ok(a) == a[2] \in Vals(a[1])
All == {a \in Values : Ok(a)}
\* a few of them, in simulation
Some == IF Sample = 0 THEN All ELSE {RandomElement(All) : k \in 1..Sample}
Live(i) == obj[i] # None
Dead(i) == obj[i] = None

\* what a payload is after it was moved from, by construction and by assignment to one of value y
Left(c, x) == IF c \in {"dflt", "both"} THEN 0 ELSE x
LeftA(c, x, y) == IF c \in {"dflt", "both"} THEN y ELSE x
\* what a holder is after it was moved from
HLeft(a) == IF HCopy \/ ~HOwns THEN a ELSE IF HDflt # 0 THEN <<HDflt, 0>> ELSE a
HLeftA(a, b) == IF HCopy \/ ~HOwns THEN a ELSE IF HDflt # 0 THEN b ELSE a

Init == kind \in DOMAIN Kinds /\ obj = [i \in 1..Objects |-> None] /\ steps = 0 /\ hist = << >>

LiveOf(o) == [x \in 1..3 |-> Cardinality({i \in DOMAIN o : o[i] # None /\ Owns(P(o[i][1]).cls) /\ o[i][2] = x - 1})]
\* two objects can hold equal values, so payloads are counted by object

Do(op, i, j, v, x, o, res) ==
    /\ steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED kind
    /\ obj' = o
    /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, v |-> v, x |-> x, res |-> res, obj |-> o, live |-> LiveOf(o)])
Set(i, a) == [obj EXCEPT ![i] = a]
Code(a) == IF a = None THEN -1 ELSE a[1] * 10 + a[2]

\* ---- made in Rust, changed in Rust
Give == \E i \in 1..Objects, a \in Some : Dead(i) /\ Do("give", i, 0, a[1], a[2], Set(i, a), 0)
SetR == \E i \in Targets, a \in Some : Live(i) /\ Do("setr", i, 0, a[1], a[2], Set(i, a), 0)
SwapR == \E i, j \in 1..Objects : i < j /\ Live(i) /\ Live(j) /\ Do("swapr", i, j, 0, 0, [obj EXCEPT ![i] = obj[j], ![j] = obj[i]], 0)
\* Rust replaces the value and returns the old one, which C++ looks at and destroys
Replace == \E i \in Targets, a \in Some : Live(i) /\ Do("repl", i, 0, a[1], a[2], Set(i, a), Code(obj[i]))
Poke == \E i \in Targets : Live(i) /\ \E x \in Vals(obj[i][1]) : Do("poker", i, 0, 0, x, Set(i, <<obj[i][1], x>>), 0)

\* ---- C++ special members
CopyNew == \E i, j \in 1..Objects : HClone /\ Dead(i) /\ Live(j) /\ Do("copy", i, j, 0, 0, Set(i, obj[j]), 0)
CopyAssign == \E i, j \in 1..Objects : HClone /\ Live(i) /\ Live(j) /\ Do("copya", i, j, 0, 0, Set(i, obj[j]), 0)
MoveNew == \E i, j \in 1..Objects : HMove /\ Dead(i) /\ Live(j) /\ Do("move", i, j, 0, 0, [obj EXCEPT ![i] = obj[j], ![j] = HLeft(obj[j])], 0)
MoveAssign == \E i, j \in 1..Objects : HMove /\ Live(i) /\ Live(j) /\ Do("movea", i, j, 0, 0, [obj EXCEPT ![i] = obj[j], ![j] = IF i = j THEN obj[i] ELSE HLeftA(obj[j], obj[i])], 0)
Default == \E i \in Targets : HDflt # 0 /\ Dead(i) /\ Do("dflt", i, 0, 0, 0, Set(i, <<HDflt, 0>>), 0)
Destroy == \E i \in 1..Objects : Live(i) /\ Do("kill", i, 0, 0, 0, Set(i, None), 0)

\* ---- by value: an Option travels as std::optional, which empties it
ByValue(op) == \E i \in Targets : (Opt \/ HMove) /\ Live(i)
                  /\ Do(op, i, 0, 0, 0, Set(i, IF Opt THEN <<1, 0>> ELSE HLeft(obj[i])), Code(obj[i]))

\* ---- the Option interface
C2 == P(2).cls
Nullopt == \E i \in Targets : Opt /\ ((Dead(i) /\ Do("nullopt", i, 0, 0, 0, Set(i, <<1, 0>>), 0)) \/ (Live(i) /\ Do("anullopt", i, 0, 0, 0, Set(i, <<1, 0>>), 0)))
OfValue(op) == Opt /\ \E i \in Targets, x \in Vals(2) : Moves(C2) /\ Dead(i) /\ Do(op, i, 0, 2, x, Set(i, <<2, x>>), Left(C2, x))
OfConst == Opt /\ \E i \in Targets, x \in Vals(2) : Clones(C2) /\ Dead(i) /\ Do("const", i, 0, 2, x, Set(i, <<2, x>>), x)
AssignValue == Opt /\ \E i \in Targets, x \in Vals(2) : Moves(C2) /\ Live(i)
                  /\ Do("avalue", i, 0, 2, x, Set(i, <<2, x>>), IF obj[i][1] = 1 THEN Left(C2, x) ELSE LeftA(C2, x, obj[i][2]))
AssignConst == Opt /\ \E i \in Targets, x \in Vals(2) : Clones(C2) /\ Live(i) /\ Do("aconst", i, 0, 2, x, Set(i, <<2, x>>), x)
\* the std::optional it came from is empty when the payload was relocated, and keeps its residue otherwise
OfOptional == Opt /\ \E i \in Targets, a \in Some : Do(IF Dead(i) THEN "opt" ELSE "aopt", i, 0, a[1], a[2], Set(i, a), IF a[1] = 1 \/ C2 # "prim" THEN 10 ELSE Code(a))
ToOptional == \E i \in Targets : Opt /\ Live(i) /\ Do("toopt", i, 0, 0, 0, Set(i, <<1, 0>>), Code(obj[i]))
\* ---- through the reference to the payload
Star == \E i \in Targets : (Opt \/ Res) /\ Live(i) /\ (Opt => obj[i][1] = 2)
            /\ LET c == P(obj[i][1]).cls IN c # "none" /\ Moves(c)
               /\ \/ \E x \in Vals(obj[i][1]) : Do("star", i, 0, 0, x, Set(i, <<obj[i][1], x>>), LeftA(c, x, obj[i][2]))
                  \/ Do("out", i, 0, 0, 0, Set(i, <<obj[i][1], Left(c, obj[i][2])>>), obj[i][2])
\* looking at a payload that is not there ends the process
Bad == \E i \in Targets, v \in {1, 2} : (Opt \/ Res) /\ Live(i) /\ obj[i][1] # v /\ P(v).cls # "none" /\ Do("bad", i, 0, v, 0, obj, 0)

\* ---- the Result interface
ResNew(op) == \E i \in Targets, a \in Some : Res /\ Dead(i) /\ P(a[1]).cls # "fixed" /\ Do(op, i, 0, a[1], a[2], Set(i, a), Left(P(a[1]).cls, a[2]))
ResAssign == \E i \in Targets, a \in Some : Res /\ Live(i) /\ P(a[1]).cls # "fixed"
                /\ Do("ares", i, 0, a[1], a[2], Set(i, a),
                      IF a[1] = 1 /\ obj[i][1] = 1 THEN LeftA(P(1).cls, a[2], obj[i][2]) ELSE Left(P(a[1]).cls, a[2]))

\* ---- the enum interface
Make == \E i \in Targets, a \in Some : Enum /\ Dead(i) /\ P(a[1]).make /\ Do("make", i, 0, a[1], a[2], Set(i, a), 0)
\* a repr(C) enum that owns nothing is written through its tag and fields
Write == \E i \in Targets, a \in Some : K.form = "reprc" /\ ~HOwns /\ Live(i) /\ Do("write", i, 0, a[1], a[2], Set(i, a), 0)

Next == \/ Give \/ SetR \/ SwapR \/ Replace \/ Poke \/ CopyNew \/ CopyAssign \/ MoveNew \/ MoveAssign \/ Default \/ Destroy
        \/ ByValue("eat") \/ ByValue("id") \/ Nullopt \/ OfValue("value") \/ OfValue("inplace") \/ OfConst \/ AssignValue \/ AssignConst
        \/ OfOptional \/ ToOptional \/ Star \/ Bad \/ ResNew("res") \/ ResNew("resin") \/ ResAssign \/ Make \/ Write
Spec == Init /\ [][Next]_vars

Typed == \A i \in 1..Objects : obj[i] = None \/ (obj[i][1] \in DOMAIN K.vars /\ obj[i][2] \in Vals(obj[i][1]))
\* a step touches the objects it names, and only those
Named == [][\A i \in 1..Objects : obj'[i] # obj[i] => LET h == hist'[Len(hist')] IN i \in {h.i, h.j}]_vars
\* only moves, swaps and conversions change the object they read
ReadsKeep == [][LET h == hist'[Len(hist')] IN h.j # 0 /\ h.op \in {"copy", "copya"} /\ h.i # h.j => obj'[h.j] = obj[h.j]]_vars
\* a payload is not duplicated unless it can be copied
NoForgery == [][LET h == hist'[Len(hist')] IN
    ~HClone /\ HOwns /\ h.op \in {"move", "movea", "swapr"} => \A x \in 2..3 : LiveOf(obj')[x] = LiveOf(obj)[x]]_vars

\* the first entry tells what C++ can do with the class
Emit == PrintT("@@" \o ToJson(<<[kind |-> kind, copy |-> HClone, move |-> HMove, dflt |-> HDflt # 0]>> \o hist'))
EmitLast == steps' = MaxSteps => Emit
=============================================================================
