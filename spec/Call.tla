---------------------------------- MODULE Call ----------------------------------
(* Calls through generated bindings.                                             *)
(*                                                                               *)
(* A signature is a sequence of parameters (a type term and a passing mode), a   *)
(* receiver, a calling convention and a result.  A value is opaque: one of NV    *)
(* boundary values of its type.  C++ owns NC cells of each type that is passed   *)
(* by reference.  The bound function is defined by its signature:                *)
(*   - it records the values it received;                                        *)
(*   - each `&mut` parameter is overwritten with the value that came in through  *)
(*     the next parameter of the same type (so two of them are swapped, three    *)
(*     rotated), or with the constant Const when there is no other;              *)
(*   - it returns nothing, the incoming value of a parameter, a tuple of them,   *)
(*     a constant, or one of the references it was given.                        *)
(* The observation of a call is what Rust received, what C++ got back, which     *)
(* cell a returned reference denotes, and the contents of all cells afterwards.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  NV, NC, Const,
  Leaves,       \* names of the leaf types
  NoOpt,        \* leaves that cannot be inside Option
  NoArr,        \* leaves that cannot be inside an array, reference or slice
  Recv,         \* leaves that may be a receiver
  MaxParams, MaxDepth, MaxLen, MaxSame,
  Shape,        \* "each": one signature per type; "random": any signature
  Modes, Recvs, Abis

VARIABLES phase, sig, mem, args, hist
vars == <<phase, sig, mem, args, hist>>

(* ------------------------------- type terms -------------------------------- *)
leaf(n) == [k |-> "leaf", n |-> n, a |-> <<>>]
mk(k, a) == [k |-> k, n |-> "", a |-> a]

RECURSIVE HasTopOpt(_)
HasTopOpt(t) == t.k = "opt" \/ (t.k = "tup" /\ \E i \in DOMAIN t.a : HasTopOpt(t.a[i]))

\* may stand in a position that is converted (parameter, result, tuple element, inside Option) ...
RECURSIVE Bridged(_)
\* ... or in a position that only has to have the same layout
RECURSIVE Plain(_)
Bridged(t) ==
  CASE t.k = "leaf" -> TRUE
    [] t.k = "tup" -> \A i \in DOMAIN t.a : ~HasTopOpt(t.a[i]) /\ Bridged(t.a[i]) /\ t.a[i] # leaf("()")
    [] t.k = "opt" -> t.a[1].k \notin {"tup", "arr"} /\ t.a[1].n \notin NoOpt /\ Bridged(t.a[1])
    [] OTHER -> Plain(t)
Plain(t) ==
  CASE t.k = "leaf" -> t.n \notin NoArr
    [] t.k = "opt" -> t.a[1].k \notin {"tup", "arr"} /\ t.a[1].n \notin NoOpt /\ Plain(t.a[1])
    [] t.k = "res" -> \A i \in DOMAIN t.a : Plain(t.a[i]) \/ t.a[i] = leaf("()")
    [] OTHER -> \A i \in DOMAIN t.a : Plain(t.a[i])

Small == {leaf("u8"), leaf("S")}
Build(S) == {mk("opt", <<t>>) : t \in S} \cup {mk("arr", <<t>>) : t \in S} \cup {mk("ref", <<t>>) : t \in S}
        \cup {mk("sl", <<t>>) : t \in S}
        \cup {mk("res", <<t, u>>) : t \in S, u \in Small} \cup {mk("res", <<u, t>>) : t \in S, u \in Small}
        \cup {mk("tup", <<t>>) : t \in S}
        \cup {mk("tup", <<t, u>>) : t \in S, u \in Small} \cup {mk("tup", <<u, t, leaf("i64")>>) : t \in S, u \in Small}
T0 == {leaf(n) : n \in Leaves}
T1 == T0 \cup Build(T0)
T2 == T1 \cup Build(Build(T0))
Terms == {t \in (IF MaxDepth = 0 THEN T0 ELSE IF MaxDepth = 1 THEN T1 ELSE T2) : Bridged(t)}

Borrowable(t) == Plain(t)
ModeOK(t, m) == CASE m = "val" -> TRUE
                  [] m \in {"sl", "msl"} -> t.k = "arr" /\ Plain(t)
                  [] OTHER -> Borrowable(t)

P(t, m) == [ty |-> t, mode |-> m]
Blank == [params |-> <<>>, recv |-> "none", abi |-> "rust", ret |-> [k |-> "unit", ix |-> <<>>]]

(* ------------------------------- signatures -------------------------------- *)
ByRef(m) == m # "val"
Mut(m) == m \in {"mut", "msl"}
Rets(ps) ==
  LET I == DOMAIN ps IN
  {[k |-> "unit", ix |-> <<>>]}
    \cup {[k |-> "val", ix |-> <<i>>] : i \in {j \in I : ps[j].ty # leaf("()") /\ Bridged(ps[j].ty)}}
    \cup {[k |-> "const", ix |-> <<i>>] : i \in {j \in I : ps[j].ty # leaf("()") /\ Bridged(ps[j].ty)}}
    \cup {[k |-> "ref", ix |-> <<i>>] : i \in {j \in I : ByRef(ps[j].mode)}}
    \cup {[k |-> "tup", ix |-> <<i, j>>] : i, j \in {h \in I : ps[h].ty # leaf("()") /\ Bridged(mk("tup", <<ps[h].ty>>))}}

Each == {[Blank EXCEPT !.params = ps, !.ret = r] :
           ps \in UNION {IF Borrowable(t) /\ t # leaf("()") THEN {<<P(t, "val"), P(t, "ref"), P(t, "mut")>>} ELSE {<<P(t, "val")>>} : t \in Terms},
           r \in {[k |-> "val", ix |-> <<1>>], [k |-> "unit", ix |-> <<>>]}}

OkSig(s) == s.ret.k # "unit" <=> s.params[1].ty # leaf("()")

Init == phase = "params" /\ sig = Blank /\ mem = <<>> /\ args = <<>> /\ hist = <<>>

AddParam ==
  /\ phase = "params" /\ Shape = "random" /\ Len(sig.params) < MaxParams
  /\ \E t \in Terms \cup {sig.params[i].ty : i \in DOMAIN sig.params}, m \in Modes :
       /\ ModeOK(t, m)
       /\ sig' = [sig EXCEPT !.params = Append(@, P(t, m))]
  /\ UNCHANGED <<phase, mem, args, hist>>

\* the next parameter repeats the type of an earlier one
SameParam ==
  /\ phase = "params" /\ Shape = "random" /\ Len(sig.params) < MaxParams
  /\ \E i \in DOMAIN sig.params, m \in Modes, z \in 1..MaxSame :
       /\ ModeOK(sig.params[i].ty, m)
       /\ sig' = [sig EXCEPT !.params = Append(@, P(sig.params[i].ty, m))]
  /\ UNCHANGED <<phase, mem, args, hist>>

Types(s) == {s.params[i].ty : i \in DOMAIN s.params}
Done ==
  /\ phase = "params" /\ Shape = "random" /\ Len(sig.params) >= 1
  /\ \E r \in Rets(sig.params), v \in Recvs, a \in Abis :
       /\ v = "self" => sig.params[1].ty.n \in Recv /\ sig.params[1].mode \in {"val", "ref", "mut"}
       /\ a = "nomangle" => v = "none"
       /\ sig' = [sig EXCEPT !.ret = r, !.recv = v, !.abi = a]
  /\ phase' = "start" /\ UNCHANGED <<mem, args, hist>>

Pick == /\ phase = "params" /\ Shape = "each"
        /\ \E s \in Each : OkSig(s) /\ sig' = s
        /\ phase' = "start" /\ UNCHANGED <<mem, args, hist>>

\* mem[i] holds the cells of the type of parameter i, shared by parameters of the same type
First(s, i) == CHOOSE j \in DOMAIN s.params : s.params[j].ty = s.params[i].ty
                  /\ \A h \in 1..(j - 1) : s.params[h].ty # s.params[i].ty

Start ==
  /\ phase = "start" /\ phase' = "run"
  /\ mem' = [i \in DOMAIN sig.params |-> [c \in 1..NC |-> (c - 1) % NV]]
  /\ hist' = <<[sig |-> sig]>>
  /\ UNCHANGED <<sig, args>>

(* ---------------------------------- calls ---------------------------------- *)
Partner(s, i) ==
  LET n == Len(s.params)
      Nth(k) == ((i - 1 + k) % n) + 1
      C == {k \in 1..(n - 1) : s.params[Nth(k)].ty = s.params[i].ty}
  IN IF C = {} THEN 0 ELSE Nth(CHOOSE k \in C : \A h \in C : k <= h)

Incoming == [i \in DOMAIN sig.params |->
                IF ByRef(sig.params[i].mode) THEN mem[First(sig, i)][args[i] + 1] ELSE args[i]]

\* C++ writes the arguments one by one: a value, or a cell no `&mut` of this call already denotes
Arg ==
  /\ phase = "run" /\ Len(hist) <= MaxLen /\ Len(args) < Len(sig.params)
  /\ LET i == Len(args) + 1 IN
       \E a \in 0..((IF ByRef(sig.params[i].mode) THEN NC ELSE NV) - 1) :
         /\ \A j \in 1..(i - 1) :
              (First(sig, i) = First(sig, j) /\ ByRef(sig.params[i].mode) /\ ByRef(sig.params[j].mode)
                 /\ (Mut(sig.params[i].mode) \/ Mut(sig.params[j].mode))) => a # args[j]
         /\ args' = Append(args, a)
  /\ UNCHANGED <<phase, sig, mem, hist>>

Call ==
  /\ phase = "run" /\ sig.params # <<>> /\ Len(args) = Len(sig.params)
  /\ LET in == Incoming
         new(i) == IF Partner(sig, i) = 0 THEN Const ELSE in[Partner(sig, i)]
         mem2 == [i \in DOMAIN sig.params |-> [c \in 1..NC |->
                    LET W == {j \in DOMAIN sig.params : Mut(sig.params[j].mode) /\ First(sig, j) = i /\ args[j] + 1 = c}
                    IN IF i # First(sig, i) \/ W = {} THEN mem[i][c] ELSE new(CHOOSE j \in W : TRUE)]]
     IN /\ mem' = mem2
        /\ hist' = Append(hist, [args |-> args, in |-> in,
              ret |-> [h \in DOMAIN sig.ret.ix |-> IF sig.ret.k = "const" THEN Const
                         ELSE IF sig.ret.k = "ref" THEN mem2[First(sig, sig.ret.ix[h])][args[sig.ret.ix[h]] + 1]
                         ELSE in[sig.ret.ix[h]]],
              mem |-> mem2])
  /\ args' = <<>>
  /\ UNCHANGED <<phase, sig>>

Next == AddParam \/ SameParam \/ Done \/ Pick \/ Start \/ Arg \/ Call
Spec == Init /\ [][Next]_vars
View == <<phase, sig, mem, args, Len(hist)>>

(* ------------------------------- properties -------------------------------- *)
TypeOK == /\ phase \in {"params", "start", "run"}
          /\ \A i \in DOMAIN mem : \A c \in 1..NC : mem[i][c] \in 0..(NV - 1)

Last == hist[Len(hist)]
\* a call writes only to the cells it was given as `&mut`
OnlyMutChanges == [][(phase = "run" /\ Len(hist') > Len(hist)) =>
   \A i \in DOMAIN mem : \A c \in 1..NC : mem'[i][c] # mem[i][c] =>
      \E j \in DOMAIN sig.params : Mut(sig.params[j].mode) /\ hist'[Len(hist')].args[j] + 1 = c /\ First(sig, j) = i]_vars
\* every value seen by the caller after a call is one that was there before it, or the constant
NothingInvented == [][(phase = "run" /\ Len(hist') > Len(hist)) =>
   \A i \in DOMAIN mem : \A c \in 1..NC :
      mem'[i][c] \in {mem[i][c], Const} \cup {hist'[Len(hist')].in[j] : j \in DOMAIN sig.params}]_vars

Emit == (Len(hist') > 1 /\ hist' # hist) => PrintT("@@" \o ToJson(hist'))
EmitLast == (Len(hist') > MaxLen /\ hist' # hist) => PrintT("@@" \o ToJson(hist'))
================================================================================
