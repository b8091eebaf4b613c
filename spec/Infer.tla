------------------------------- MODULE Infer -------------------------------
(* Lifetime inference for C++ functions (L02): programs with pointers, pointers to
   pointers, branches and loops; what every execution of them does (the collecting
   semantics), and the flow-sensitive points-to analysis with outlives constraints
   that answers for them.

   A function has the parameters a, b (int star), p, o (pointers to pointers), the
   locals x, y, q (pointers, a pointer to a pointer) and n (an int), and sees globals:
   gp, sp (pointers; the latter is static) and gi, si (ints).  The objects that
   parameters point to are A, B, P (holding PQ) and O (holding OQ); what the caller
   sees returned is R (holding RR).  The lifetime of an object that a caller sees is named
   like the object; all others are "s" (static) or "l" (local). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Simple,    \* the simple statements
          Rets,      \* the returned expressions
          Blocks,    \* which of "if", "else", "while" may be used
          MaxLen, MaxDepth,
          Two        \* the function returns a pointer to a pointer

VARIABLES toks, stack, hist
vars == <<toks, stack, hist>>

V1 == {"a", "b", "x", "y", "gp", "sp"}
V2 == {"p", "o", "q"}
Seen == {"A", "B", "P", "PQ", "O", "OQ", "R", "RR"}
Statics == {"gp", "sp", "gi", "si", "GP", "SP"}
Life(obj) == IF obj \in Seen THEN obj ELSE IF obj \in Statics THEN "s" ELSE "l"

\* ------------------------------------------------------------ statements
\* An expression is <<form, name>>: v value of a variable, d what a pointer to pointer
\* holds, & an address, 0 null, c a choice of two variables.
\* A statement is <<kind, name, expression>>: = assignment to a pointer, s store through
\* a pointer to pointer, w assignment to a pointer to pointer, r conditional return,
\* or a bracket: if, else, while, end.
None == <<"0", "", "">>
Br(k) == <<k, "", None>>

\* ------------------------------------------------------------ executions
\* A store maps cells to objects ("0": null).
Cells == V1 \cup V2 \cup {"P", "O"}
Start == [c \in Cells |->
  CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "p" -> "P" [] c = "o" -> "O" [] c = "P" -> "PQ" [] c = "O" -> "OQ"
    [] c = "gp" -> "GP" [] c = "sp" -> "SP" [] c = "q" -> "x" [] OTHER -> "0"]
\* All values of an expression in a store; an execution that uses a null pointer ends there.
Vals(e, s) == CASE e[1] = "v" -> {s[e[2]]} [] e[1] = "d" -> IF s[e[2]] = "0" THEN {} ELSE {s[s[e[2]]]}
                [] e[1] = "&" -> {e[2]} [] e[1] = "c" -> {s[e[2]], s[e[3]]} [] OTHER -> {"0"}
Put(k, v, s, val) == IF k = "s" THEN [s EXCEPT ![s[v]] = val] ELSE [s EXCEPT ![v] = val]
\* C is a pair of the stores that may be, and the returns that happened: <<value, store>>.
ExecC(t, C) ==
  IF t[1] = "r" THEN <<C[1], C[2] \cup UNION {{<<v, s>> : v \in Vals(t[3], s)} : s \in C[1]}>>
  ELSE <<UNION {{Put(t[1], t[2], s, v) : v \in Vals(t[3], s)} : s \in {r \in C[1] : t[1] # "s" \/ r[t[2]] # "0"}}, C[2]>>
JoinC(c, d) == <<c[1] \cup d[1], c[2] \cup d[2]>>
\* Runs the statements from i to the end of the block; <<state, position of the closing bracket>>.
RECURSIVE RunC(_, _, _), LoopC(_, _, _)
RunC(ts, i, C) ==
  IF i > Len(ts) \/ ts[i][1] \in {"end", "else"} THEN <<C, i>>
  ELSE IF ts[i][1] = "if" THEN
    LET then == RunC(ts, i + 1, C) IN
    IF ts[then[2]][1] = "else"
    THEN LET els == RunC(ts, then[2] + 1, C) IN RunC(ts, els[2] + 1, JoinC(then[1], els[1]))
    ELSE RunC(ts, then[2] + 1, JoinC(then[1], C))
  ELSE IF ts[i][1] = "while" THEN LET l == LoopC(ts, i, C) IN RunC(ts, l[2] + 1, l[1])
  ELSE RunC(ts, i + 1, ExecC(ts[i], C))
LoopC(ts, i, C) == LET b == RunC(ts, i + 1, C) J == JoinC(C, b[1]) IN IF J = C THEN <<C, b[2]>> ELSE LoopC(ts, i, J)

\* What an execution that returns v in store s demands: pairs of lifetimes, the second must
\* outlive the first.  What a caller can read must live as long as it may read it; what it
\* can write through a returned pointer must be good for the cell.
Holds(cell) == IF cell = "P" THEN "PQ" ELSE IF cell = "O" THEN "OQ" ELSE IF cell \in Statics THEN "s" ELSE "l"
Need(v, s) ==
  {<<h[1], Life(h[2])>> : h \in {g \in {<<"PQ", s["P"]>>, <<"OQ", s["O"]>>, <<"s", s["gp"]>>, <<"s", s["sp"]>>} : g[2] # "0"}}
  \cup (IF v = "0" THEN {} ELSE {<<"R", Life(v)>>})
  \cup (IF Two /\ v # "0" /\ Life(v) # "l"
        THEN {<<Holds(v), "RR">>} \cup (IF s[v] = "0" THEN {} ELSE {<<"RR", Life(s[v])>>}) ELSE {})
Needs(ts) == LET c == RunC(ts, 1, <<{Start}, {}>>)[1] IN UNION {Need(r[1], r[2]) : r \in c[2]}

\* ------------------------------------------------------------ analysis
Objs == Cells \cup Seen \cup Statics \cup {"n", "ret"}
Pts0 == [x \in Objs |->
  CASE x = "a" -> {"A"} [] x = "b" -> {"B"} [] x = "p" -> {"P"} [] x = "o" -> {"O"} [] x = "P" -> {"PQ"} [] x = "O" -> {"OQ"}
    [] x = "gp" -> {"GP"} [] x = "sp" -> {"SP"} [] x = "q" -> {"x"} [] x = "ret" -> {"R"} [] x = "R" /\ Two -> {"RR"} [] OTHER -> {}]
At(pts, os) == UNION {pts[x] : x \in os}
ValsA(e, pts) == CASE e[1] = "v" -> pts[e[2]] [] e[1] = "d" -> At(pts, pts[e[2]]) [] e[1] = "&" -> {e[2]}
                   [] e[1] = "c" -> pts[e[2]] \cup pts[e[3]] [] OTHER -> {}
Product(os, ns) == {<<Life(x), Life(y)>> : x \in os, y \in ns}
\* New pointees outlive the old ones; below the outermost pointer the lifetimes are invariant.
Flow(pts, ptrs, new, deep) ==
  LET old == At(pts, ptrs) IN
  Product(old, new) \cup (IF deep THEN Product(At(pts, old), At(pts, new)) \cup Product(At(pts, new), At(pts, old)) ELSE {})
\* A is [pts, cons, out: the joined states of returns].
ExecA(t, A) ==
  LET val == ValsA(t[3], A.pts)
      dst == IF t[1] = "s" THEN A.pts[t[2]] ELSE {t[2]} IN
  IF t[1] = "r"
  THEN LET c == A.cons \cup Flow(A.pts, {"ret"}, val, Two) IN
       [A EXCEPT !.out = [any |-> TRUE, pts |-> [x \in Objs |-> @.pts[x] \cup A.pts[x]], cons |-> @.cons \cup c]]
  ELSE IF Cardinality(dst) = 1 /\ dst \subseteq (V1 \cup V2) \ Statics
  THEN [A EXCEPT !.pts = [x \in Objs |-> IF x \in dst THEN val ELSE @[x]]]
  ELSE [A EXCEPT !.pts = [x \in Objs |-> IF x \in dst THEN @[x] \cup val ELSE @[x]],
                 !.cons = @ \cup Flow(A.pts, dst, val, t[1] = "w")]
JoinP(f, g) == [x \in Objs |-> f[x] \cup g[x]]
JoinA(A, B) == [pts |-> JoinP(A.pts, B.pts), cons |-> A.cons \cup B.cons,
                out |-> [any |-> A.out.any \/ B.out.any, pts |-> JoinP(A.out.pts, B.out.pts), cons |-> A.out.cons \cup B.out.cons]]
RECURSIVE RunA(_, _, _), LoopA(_, _, _)
RunA(ts, i, A) ==
  IF i > Len(ts) \/ ts[i][1] \in {"end", "else"} THEN <<A, i>>
  ELSE IF ts[i][1] = "if" THEN
    LET then == RunA(ts, i + 1, A) IN
    IF ts[then[2]][1] = "else"
    THEN LET els == RunA(ts, then[2] + 1, A) IN RunA(ts, els[2] + 1, JoinA(then[1], els[1]))
    ELSE RunA(ts, then[2] + 1, JoinA(then[1], A))
  ELSE IF ts[i][1] = "while" THEN LET l == LoopA(ts, i, A) IN RunA(ts, l[2] + 1, l[1])
  ELSE RunA(ts, i + 1, ExecA(ts[i], A))
LoopA(ts, i, A) == LET b == RunA(ts, i + 1, A) J == JoinA(A, b[1]) IN IF J = A THEN <<A, b[2]>> ELSE LoopA(ts, i, J)
Empty == [x \in Objs |-> {}]
Final(ts) == RunA(ts, 1, [pts |-> Pts0, cons |-> {}, out |-> [any |-> FALSE, pts |-> Empty, cons |-> {}]])[1].out

\* Everything that statics reach is static too.
RECURSIVE Reach(_, _)
Reach(pts, os) == LET n == os \cup At(pts, os) IN IF n = os THEN os ELSE Reach(pts, n)
Cons(ts) == LET f == Final(ts) IN
            f.cons \cup {<<"s", Life(x)>> : x \in Reach(f.pts, {"gp", "sp"})}
Names == Seen \cup {"s", "l"}
RECURSIVE Longer(_, _)
Longer(cs, ls) == LET n == ls \cup {c[2] : c \in {d \in cs : d[1] \in ls}} IN IF n = ls THEN ls ELSE Longer(cs, n)
Sig == {"A", "B", "P", "PQ", "O", "OQ", "R"} \cup (IF Two THEN {"RR"} ELSE {})
\* The answer: an error, or a partition of the lifetimes of the signature.
Bad(cs) == "l" \in Longer(cs, {"s"}) \/ \E l \in Sig : "l" \in Longer(cs, {l})
IsStatic(cs, l) == l \in Longer(cs, {"s"})
\* Lifetimes that must be one: connected by constraints between those that are not static.
RECURSIVE Grow(_, _, _)
Grow(cs, free, ls) == LET n == ls \cup {m \in free : \E l \in ls : m \in Longer(cs, {l}) \/ l \in Longer(cs, {m})} IN IF n = ls THEN ls ELSE Grow(cs, free, n)
Class(cs, l) == IF IsStatic(cs, l) THEN {"s"} ELSE Grow(cs, {m \in Sig : ~IsStatic(cs, m)}, {l})
Answer(cs) == IF Bad(cs) THEN [bad |-> TRUE, class |-> [l \in Sig |-> {}]] ELSE [bad |-> FALSE, class |-> [l \in Sig |-> Class(cs, l)]]

\* An answer covers a demand when the lifetimes are one, or the longer one is static.
Name(an, l) == IF l \in Sig THEN an.class[l] ELSE {l}
Covers(an, need) == an.bad \/ \A c \in need : Name(an, c[2]) = {"s"} \/ (Name(an, c[1]) = Name(an, c[2]) /\ c[2] # "l")

\* ------------------------------------------------------------ programs
Init == toks = <<>> /\ stack = <<>> /\ hist = <<>>
Room(n) == Len(toks) + Len(stack) + n < MaxLen /\ hist = <<>>
More(t) == toks' = Append(toks, t) /\ hist' = <<>>
Closing == IF toks = <<>> THEN "" ELSE toks[Len(toks)][1]
Stmt == Room(1) /\ (\E t \in Simple : More(t)) /\ UNCHANGED stack
Open(k) == k \in Blocks /\ Room(3) /\ Len(stack) < MaxDepth /\ More(Br(k)) /\ stack' = Append(stack, k)
Else == "else" \in Blocks /\ Room(2) /\ stack # <<>> /\ stack[Len(stack)] = "if" /\ Closing # "if"
        /\ More(Br("else")) /\ stack' = [stack EXCEPT ![Len(stack)] = "else"]
Close == stack # <<>> /\ hist = <<>> /\ Closing \notin {"if", "else", "while"} /\ More(Br("end")) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Finish == /\ stack = <<>> /\ hist = <<>> /\ toks # <<>>
          /\ \E e \in Rets : LET ts == Append(toks, <<"r", "", e>>)
                                 an == Answer(Cons(ts)) IN
             /\ Assert(Covers(an, Needs(ts)), <<"unsound", ts, an, Needs(ts)>>)
             /\ hist' = <<ts, an.bad, [l \in Sig |-> an.class[l]], {n \in Needs(ts) : n[1] # n[2]}>>
          /\ UNCHANGED <<toks, stack>>
Next == Stmt \/ Open("if") \/ Open("while") \/ Else \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

\* Brackets always match.
Nested == Len(stack) = Cardinality({i \in 1..Len(toks) : toks[i][1] \in {"if", "while"}}) - Cardinality({i \in 1..Len(toks) : toks[i][1] = "end"})

Emit == hist' = <<>> \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
