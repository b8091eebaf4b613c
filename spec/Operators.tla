----------------------------- MODULE Operators -----------------------------
(* C++ operators and conversions of bound types, and the Rust traits they come from.

   A world has types (which may be copied, cloned, defaulted or have a destructor) and
   trait impls. Every impl computes F(its number, left, right): the value tells which
   impl ran and which operand it took for which. Two objects of each type; a step applies
   one C++ expression to them.

   An operand passed by value is left in its documented moved-from state: untouched if
   its type can be copied, is cloned by moves or has nothing to drop, the default else. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types,     \* sequence of [copy, clone, dflt, drop]
          Impls,     \* sequence of [op, t, rk, rt, ref, out]: for type t, operator op with a right side
                     \* of kind rk (an object of type rt, by reference or not, or a plain value)
          Shadow,    \* pairs of right (or result) kinds that may be one C++ type: the first gives way
          Inputs,    \* plain values
          MaxSteps, Table,
          Sample        \* in simulation: how many impls to choose the next step from

VARIABLES val, steps, hist
vars == <<val, steps, hist>>
View == <<val, steps>>

N == 97
Dflt == 5
F(i, l, r) == ((i * 29) + (l * 7) + (r * 3) + 11) % N
T == 1..Len(Types)
Movable(t) == Types[t].copy \/ Types[t].clone \/ Types[t].dflt \/ ~Types[t].drop
MovedFrom(t, v) == IF ~Types[t].copy /\ Types[t].dflt /\ Types[t].drop THEN Dflt ELSE v

Binary == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}
Assign == {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
Unary == {"neg", "!"}
ByValueSelf(m) == m.op \in (Binary \cup Unary \cup {"into"})
\* An impl can be offered in C++ when whatever it takes by value can be moved into it.
Bindable(m) == (ByValueSelf(m) => Movable(m.t)) /\ (m.rk = "adt" /\ ~m.ref => Movable(m.rt))
Kind(m) == IF m.op = "into" THEN m.out ELSE m.rk
Preferred == { << Impls[n].op, Impls[n].t, Kind(Impls[n]) >> : n \in 1..Len(Impls) }
GivesWay(m) == \E p \in Shadow : p[1] = Kind(m) /\ << m.op, m.t, p[2] >> \in Preferred
Usable == { i \in 1..Len(Impls) : Bindable(Impls[i]) /\ ~GivesWay(Impls[i]) }
\* Comparisons that C++ also offers with the operands exchanged: no impl of its own is in the way.
Back == { << Impls[n].op, Impls[n].t, Impls[n].rt >> : n \in { n \in Usable : Impls[n].rk = "adt" /\ ~(Impls[n].op = "index" /\ Impls[n].ref) } }
Flips == { i \in Usable : LET m == Impls[i] IN m.op \in {"==", "pcmp"} /\ ~(m.rk = "adt" /\ (m.rt = m.t \/ << m.op, m.rt, m.t >> \in Back)) }

Init == /\ val = [t \in T |-> << (t * 11) % N, (t * 13 + 40) % N >>]
        /\ steps = 0 /\ hist = << >>

\* three-way results: -1, 0, 1, and 2 for unordered; the relational operators follow
Rel(c) == << c = -1, c \in {-1, 0}, c = 1, c \in {0, 1} >>
Flip(c) == IF c = 2 THEN 2 ELSE -c
Set(v, t, k, x) == [v EXCEPT ![t][k] = x]

Apply(i, a, b, x, how) ==
  LET m == Impls[i]
      adt == m.rk = "adt"
      l == val[m.t][a]
      r == IF adt THEN val[m.rt][b] ELSE x
      f == F(i, l, r)
      \* the right operand, when it is taken by value
      rhs(v) == IF adt /\ ~m.ref THEN Set(v, m.rt, b, MovedFrom(m.rt, r)) ELSE v
      lhs(v) == Set(v, m.t, a, MovedFrom(m.t, l))
      c == IF m.op = "cmp" THEN (f % 3) - 1 ELSE (f % 4) - 1
      sh(v) == IF m.out = "bool" THEN v % 2 ELSE v      \* the value as its type shows it
      d == IF how = "flip" THEN Flip(c) ELSE c
      out == CASE m.op \in Binary -> << sh(f), rhs(lhs(val)) >>
               [] m.op \in Assign -> << 0, rhs(Set(val, m.t, a, f)) >>
               [] m.op = "index" -> << f, rhs(val) >>
               [] m.op = "index_mut" -> << f, rhs(Set(val, m.t, a, (f + 1) % N)) >>
               [] m.op \in Unary -> << sh(F(i, l, 0)), lhs(val) >>
               [] m.op = "into" -> << sh(F(i, l, 0)), lhs(val) >>
               [] m.op = "from" -> << F(i, 0, r), rhs(val) >>
               [] m.op = "==" -> << f % 2, val >>
               [] m.op \in {"cmp", "pcmp"} -> << << d >> \o Rel(d), val >>
               [] OTHER -> << l, val >>       \* show
  IN /\ val' = out[2]
     /\ hist' = Append(hist, [i |-> i, a |-> a, b |-> b, x |-> x, how |-> how, res |-> out[1], val |-> out[2]])

Act == /\ ~Table /\ steps < MaxSteps /\ steps' = steps + 1
       /\ \E i \in (IF Sample = 0 THEN Usable ELSE {RandomElement(Usable) : k \in 1..Sample}), a \in 1..2, b \in 1..2, x \in Inputs :
            LET m == Impls[i] IN
            /\ m.rk # "adt" => b = 1
            /\ m.rk \in {"adt", "none", "to", "out"} => x = 0
            /\ m.op = "from" => a = 1
            \* an object is not both operands when one of them is moved or changed
            /\ m.rk = "adt" /\ m.rt = m.t /\ (m.op \in Assign \/ m.op = "index_mut" \/ ~Types[m.t].copy) => a # b
            /\ \E how \in (IF i \in Flips THEN {"plain", "flip"} ELSE {"plain"}) : Apply(i, a, b, x, how)

(* What exists: a C++ expression with an object on the left and an object of another (or
   the same) type on the right compiles only when an impl stands behind it. *)
Has(op, t, u) == << op, t, u >> \in Back
Offers(op, t, u) ==
  CASE op = "==" -> Has("==", t, u) \/ Has("==", u, t)
    [] op = "<=>" -> \E o \in {"cmp", "pcmp"} : Has(o, t, u) \/ Has(o, u, t)
    [] OTHER -> Has(op, t, u)
\* T(u) is offered for From<U> for T, and for Into<T> for U
Converts(t, u) == t # u /\ (Has("from", t, u) \/ (\E i \in Usable : Impls[i].op = "into" /\ Impls[i].t = u /\ Impls[i].rk = "to" /\ Impls[i].rt = t))
\* !t is also what an explicit conversion to bool gives
Alone(op, t) == \E i \in Usable : Impls[i].t = t /\ (Impls[i].op = op \/ (op = "!" /\ Impls[i].op = "into" /\ Impls[i].out = "bool"))
Ops == Binary \cup Assign \cup {"index", "==", "<=>"}
Tell == /\ Table /\ steps = 0 /\ steps' = 1 /\ UNCHANGED val
        /\ hist' = << [two |-> [op \in Ops |-> [t \in T |-> [u \in T |-> Offers(op, t, u)]]],
                       one |-> [op \in Unary \cup {"show"} |-> [t \in T |-> Alone(op, t)]],
                       conv |-> [t \in T |-> [u \in T |-> Converts(t, u)]]] >>

Next == Act \/ Tell
Spec == Init /\ [][Next]_vars

InRange == \A t \in T, k \in 1..2 : val[t][k] \in 0..(N - 1)
\* Only the operands of a step change, and the right one only by being moved from.
Local == [][~Table => (\A t \in T, k \in 1..2 : val'[t][k] # val[t][k] =>
              LET h == hist'[Len(hist')] m == Impls[h.i] IN
              \/ (t = m.t /\ k = h.a /\ m.op # "from")
              \/ (m.rk = "adt" /\ ~m.ref /\ t = m.rt /\ k = h.b /\ val'[t][k] = MovedFrom(t, val[t][k])))]_vars
Emit == PrintT("@@" \o ToJson(hist'))
EmitLast == steps' = MaxSteps => Emit
=============================================================================
