------------------------------ MODULE Lattice ------------------------------
(* The lattices of the lifetime analysis (L01): points-to maps, constraints and
   single-valued objects; constraints applied to the lifetimes of a function;
   substitutions; and the table of lifetime names. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Mode,            \* lattice, apply, subst or names
          Regs, Objs, Sets, Lives, Cmds, MaxLen,
          Sources, Families, \* apply: candidate constraints and the sets of them
          Names, Pick

VARIABLES regs, sub, tab, hist
vars == <<regs, sub, tab, hist>>

LifeOf == <<"1", "2", "s", "s", "l">>
Absent == {0}     \* a pointer that has no entry, which is not the same as an empty one
Fresh(sv) == [err |-> FALSE, pts |-> [x \in Objs |-> Absent], cons |-> {}, sv |-> sv]
Failed == [err |-> TRUE, pts |-> [x \in Objs |-> Absent], cons |-> {}, sv |-> {}]
Or(a, b) == IF a = Absent THEN b ELSE IF b = Absent THEN a ELSE a \cup b
Get(l, os) == UNION {IF l.pts[x] = Absent THEN {} ELSE l.pts[x] : x \in os}
Join(a, b) == IF a.err THEN a ELSE IF b.err THEN Failed
              ELSE [err |-> FALSE, pts |-> [x \in Objs |-> Or(a.pts[x], b.pts[x])], cons |-> a.cons \cup b.cons, sv |-> a.sv \cap b.sv]
\* More is known to be possible in b than in a.
Below(a, b) == b.err \/ (~a.err /\ ~b.err /\ a.cons \subseteq b.cons /\ b.sv \subseteq a.sv /\ \A x \in Objs : a.pts[x] = Absent \/ (b.pts[x] # Absent /\ a.pts[x] \subseteq b.pts[x]))

RECURSIVE Longer(_, _)
Longer(cs, ls) == LET n == ls \cup {c[2] : c \in {d \in cs : d[1] \in ls}} IN IF n = ls THEN ls ELSE Longer(cs, n)

\* ------------------------------------------------------------ lifetimes of a function
Sig == {"1", "2", "3", "4"}
Locals == {"l", "m"}
Static(cs) == Longer(cs, {"s"})
RECURSIVE Grow(_, _, _)
Grow(cs, free, ls) == LET n == ls \cup {m \in free : \E l \in ls : m \in Longer(cs, {l}) \/ l \in Longer(cs, {m})} IN IF n = ls THEN ls ELSE Grow(cs, free, n)
IsLocal(cs, l) == Longer(cs, {l}) \cap Locals # {}
Class(cs, l) == IF l \in Static(cs) THEN {"s"} ELSE IF IsLocal(cs, l) THEN Longer(cs, {l}) \cap Locals
                ELSE Grow(cs, {m \in Sig : m \notin Static(cs) /\ ~IsLocal(cs, m)}, {l})
Applied(cs) == IF Static(cs) \cap Locals # {} THEN <<>> ELSE <<Class(cs, "1"), Class(cs, "2"), Class(cs, "3"), Class(cs, "4")>>

\* ------------------------------------------------------------ substitutions
RECURSIVE Subst(_, _)
Subst(f, l) == IF l \in DOMAIN f /\ f[l] # "" THEN Subst(f, f[l]) ELSE l

\* ------------------------------------------------------------ names
\* tab: name -> lifetime ("": none), back: lifetime -> name, next: index of the next name
Alphabet == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
RECURSIVE Spell(_, _)
Spell(i, n) == IF n = 0 THEN "" ELSE Spell(i \div 26, n - 1) \o Alphabet[(i % 26) + 1]
NameAt(i) == IF i < 26 THEN Spell(i, 1) ELSE IF i < 26 + 676 THEN Spell(i - 26, 2) ELSE Spell(i - 702, 3)
Bound == {e[1] : e \in tab.map}
LifeNamed(n) == (CHOOSE e \in tab.map : e[1] = n)[2]
NameOf(l) == LET es == {e \in tab.map : e[2] = l} IN IF es = {} THEN "none" ELSE (CHOOSE e \in es : TRUE)[1]
RECURSIVE FreeAt(_)
FreeAt(i) == IF NameAt(i) \in Bound THEN FreeAt(i + 1) ELSE i

\* ------------------------------------------------------------ operations
Do(op, res) == hist' = Append(hist, <<op, res>>)
Init == /\ regs = [r \in Regs |-> Fresh({})] /\ hist = <<>> /\ sub = [v \in Sig |-> ""] /\ tab = [map |-> {}, next |-> 0]
Put(r, l, op) == regs' = [regs EXCEPT ![r] = l] /\ Do(op, l) /\ UNCHANGED <<sub, tab>>
Read(op, res) == Do(op, res) /\ UNCHANGED <<regs, sub, tab>>
On(c) == c \in Cmds
New(r, sv) == On("i") /\ Put(r, Fresh(sv), <<"i", r, sv>>)
Fail(r) == On("f") /\ Put(r, Failed, <<"f", r>>)
Set(r, x, s) == On("s") /\ ~regs[r].err /\ Put(r, [regs[r] EXCEPT !.pts[x] = s], <<"s", r, x, s>>)
SetAll(r, xs, s) == On("S") /\ ~regs[r].err /\ Put(r, [regs[r] EXCEPT !.pts = [x \in Objs |-> IF x \in xs THEN s ELSE @[x]]], <<"S", r, xs, s>>)
Extend(r, x, s) == On("e") /\ ~regs[r].err /\ Put(r, [regs[r] EXCEPT !.pts[x] = Or(@, s)], <<"e", r, x, s>>)
Constrain(r, a, b) == On("c") /\ ~regs[r].err /\ Put(r, [regs[r] EXCEPT !.cons = @ \cup {<<a, b>>}], <<"c", r, a, b>>)
Merge(r, q) == On("j") /\ LET n == Join(regs[r], regs[q]) IN regs' = [regs EXCEPT ![r] = n] /\ Do(<<"j", r, q>>, <<n # regs[r], n>>) /\ UNCHANGED <<sub, tab>>
MergeCons(r, q) == On("J") /\ ~regs[r].err /\ ~regs[q].err /\ LET n == [regs[r] EXCEPT !.cons = @ \cup regs[q].cons] IN
                   regs' = [regs EXCEPT ![r] = n] /\ Do(<<"J", r, q>>, <<n # regs[r], n>>) /\ UNCHANGED <<sub, tab>>
Copy(r, q) == On("k") /\ r # q /\ Put(r, regs[q], <<"k", r, q>>)
Equal(r, q) == On("=") /\ Read(<<"=", r, q>>, regs[r] = regs[q])
Points(r, s) == On("g") /\ ~regs[r].err /\ Read(<<"g", r, s>>, Get(regs[r], s))
WithLife(r, l) == On("p") /\ ~regs[r].err /\ Read(<<"p", r, l>>, {x \in Objs : regs[r].pts[x] # Absent /\ LifeOf[x] = l})
Outliving(r, l) == On("o") /\ ~regs[r].err /\ Read(<<"o", r, l>>, Longer(regs[r].cons, {l}) \ {l})
SetOps(s, t) == On("u") /\ Read(<<"u", s, t>>, <<s \cup t, s \cap t, t \subseteq s, s = t>>)

Some(S) == IF Pick THEN {RandomElement(S)} ELSE S
LatticeOp == \E r \in Some(Regs), q \in Some(Regs), s \in Some(Sets), x \in Some(Objs), a \in Some(Lives), b \in Some(Lives) :
  \/ \E t \in Some(Sets) : SetAll(r, s, t) \/ SetOps(s, t)
  \/ New(r, s) \/ Fail(r) \/ Set(r, x, s) \/ Extend(r, x, s) \/ Constrain(r, a, b)
  \/ Merge(r, q) \/ MergeCons(r, q) \/ Copy(r, q) \/ Equal(r, q) \/ Points(r, s) \/ WithLife(r, a) \/ Outliving(r, a)
Apply == hist = <<>> /\ \E cs \in Families : Read(<<"A", cs>>, Applied(cs))
AddSub == \E v \in Sig, l \in Sig \cup {"s"} :
  LET to == Subst(sub, l) n == IF to = v THEN sub ELSE [sub EXCEPT ![v] = to] IN
  sub' = n /\ Do(<<"+", v, l>>, [i \in 1..5 |-> Subst(n, <<"1", "2", "3", "4", "s">>[i])]) /\ UNCHANGED <<regs, tab>>
Bind(n, l) == tab' = [tab EXCEPT !.map = {e \in @ : e[1] # n} \cup {<<n, l>>}]
NameOp ==
  \/ \E n \in Names : LET l == IF n \in Bound THEN LifeNamed(n) ELSE "'" \o n IN
       (n \notin Bound => \A e \in tab.map : e[2] # "'" \o n) /\ Bind(n, l) /\ Do(<<"D", n>>, l) /\ UNCHANGED <<regs, sub>>
  \/ \E n \in Names \cup {NameAt(0), NameAt(1)} : Read(<<"L", n>>, IF n \in Bound THEN LifeNamed(n) ELSE "none")
  \/ \E l \in Sig : Read(<<"Q", l>>, NameOf(l))
  \/ \E l \in Sig : IF NameOf(l) # "none" THEN Read(<<"G", l>>, NameOf(l))
       ELSE LET i == FreeAt(tab.next) IN tab' = [map |-> tab.map \cup {<<NameAt(i), l>>}, next |-> i + 1] /\ Do(<<"G", l>>, NameAt(i)) /\ UNCHANGED <<regs, sub>>
  \/ \E n \in Names, l \in Sig : n \notin Bound /\ NameOf(l) = "none" /\ Bind(n, l) /\ Do(<<"N", n, l>>, "-") /\ UNCHANGED <<regs, sub>>
  \/ \E n \in Names, l \in Sig : n \in Bound /\ NameOf(l) \in {"none", n} /\ Bind(n, l) /\ Do(<<"B", n, l>>, "-") /\ UNCHANGED <<regs, sub>>
\* Ever more lifetimes get names; names bound before are stepped over.
Fill == LET v == ToString(Len(hist) + 100) IN
  IF Len(hist) < 6 THEN \E n \in Some(Names) : n \notin Bound /\ Bind(n, v) /\ Do(<<"N", n, v>>, "-") /\ UNCHANGED <<regs, sub>>
  ELSE LET i == FreeAt(tab.next) IN tab' = [map |-> tab.map \cup {<<NameAt(i), v>>}, next |-> i + 1] /\ Do(<<"G", v>>, NameAt(i)) /\ UNCHANGED <<regs, sub>>
Next == /\ Len(hist) < MaxLen
        /\ CASE Mode = "lattice" -> LatticeOp [] Mode = "apply" -> Apply [] Mode = "subst" -> AddSub [] Mode = "fill" -> Fill [] OTHER -> NameOp
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
Laws == \A r, q \in Regs :
  LET a == regs[r] b == regs[q] j == Join(a, b) IN
  /\ (a.err /\ b.err) \/ j = Join(b, a)
  /\ Join(a, a) = a /\ Join(j, b) = j
  /\ Below(a, j) /\ Below(b, j)
  /\ (j = b \/ j = a) <=> (Below(a, b) \/ Below(b, a))
  /\ \A s \in Regs : LET c == regs[s] IN
     /\ Join(j, c) = Join(a, Join(b, c))
     /\ Below(a, b) => Below(Join(a, c), Join(b, c))
     /\ (Below(a, c) /\ Below(b, c)) => Below(j, c)
\* Substituting twice changes nothing, and there are no cycles.
Settled == \A v \in Sig : Subst(sub, Subst(sub, v)) = Subst(sub, v)
\* Names and lifetimes are one to one.
OneToOne == \A d, e \in tab.map : (d[1] = e[1]) <=> (d[2] = e[2])
\* Constraints hold afterwards: the longer lifetime is static or the two are one.
Met == \A i \in DOMAIN hist : (Mode = "apply" /\ hist[i][2] # <<>>) =>
  LET cs == hist[i][1][2] f == [l \in Sig |-> hist[i][2][CHOOSE k \in 1..4 : <<"1", "2", "3", "4">>[k] = l]] IN
  \A l, m \in Sig : m \in Longer(cs, {l}) => f[m] = {"s"} \/ f[l] = f[m] \/ (f[l] \cap Locals # {} /\ (f[m] \cap Locals) \subseteq f[l])

View == <<regs, sub, tab, Len(hist)>>
Emit == hist' = <<>> \/ PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
