----------------------------------- MODULE Own -----------------------------------
(* Ownership of Rust values held by C++ objects of a generated class.

   A C++ program holds up to K objects ("slots") of one bound type and Rust keeps a
   vault of values it was given.  The type is described by its traits:
     copy, clone, dflt   the Rust traits it implements
     pin                 it does not implement Unpin
     drop                it has a destructor (so every value is tracked by an id)
   Move style (docs/rust/movable_types.md): "bytes" without destructor, "take" with a
   destructor and Default, "copy" with a destructor and Clone only, "none" otherwise.

   Status of a slot: "A" no object, "V" holds a usable value, "S" moved from and only
   good for assignment and destruction.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K, Types, MaxVault, MaxLen, Ops

Style(t) == IF ~t.drop THEN "bytes" ELSE IF t.dflt /\ ~t.pin THEN "take" ELSE IF t.clone THEN "copy" ELSE "none"
Movable(t) == Style(t) # "none"
Slots == 1..K

VARIABLES ty, st, vault, hist
vars == <<ty, st, vault, hist>>
view == <<ty, st, vault>>

Init == /\ ty \in Types /\ st = [k \in Slots |-> "A"] /\ vault = 0 /\ hist = <<[ty |-> ty]>>

After(t) == IF t.copy \/ Style(t) # "bytes" THEN "V" ELSE "S"    \* status of a moved-from object

Do(op, k, j, s, v) ==
  /\ op \in Ops
  /\ st' = s /\ vault' = v /\ ty' = ty
  /\ hist' = Append(hist, [op |-> op, k |-> k, j |-> j, st |-> s])

Make(k)      == st[k] = "A" /\ Do("make", k, 0, [st EXCEPT ![k] = "V"], vault)
Default(k)   == st[k] = "A" /\ ty.dflt /\ Do("default", k, 0, [st EXCEPT ![k] = "V"], vault)
CopyNew(k, j) == st[k] = "A" /\ st[j] = "V" /\ ty.clone /\ Do("copynew", k, j, [st EXCEPT ![k] = "V"], vault)
MoveNew(k, j) == st[k] = "A" /\ st[j] = "V" /\ Movable(ty)
                 /\ Do("movenew", k, j, [st EXCEPT ![k] = "V", ![j] = After(ty)], vault)
CopyTo(k, j) == st[k] # "A" /\ st[j] = "V" /\ ty.clone /\ Do("copyto", k, j, [st EXCEPT ![k] = "V"], vault)
MoveTo(k, j) == st[k] # "A" /\ st[j] = "V" /\ Movable(ty)
                /\ Do("moveto", k, j, IF k = j THEN [st EXCEPT ![k] = "V"]
                                      ELSE [st EXCEPT ![k] = "V", ![j] = After(ty)], vault)
Destroy(k)   == st[k] # "A" /\ Do("destroy", k, 0, [st EXCEPT ![k] = "A"], vault)
Give(k)      == st[k] = "V" /\ Movable(ty) /\ vault < MaxVault
                /\ Do("give", k, 0, [st EXCEPT ![k] = After(ty)], vault + 1)
GiveCopy(k)  == st[k] = "V" /\ ty.clone /\ vault < MaxVault /\ Do("givecopy", k, 0, st, vault + 1)
Take(k)      == st[k] = "A" /\ vault > 0 /\ Do("take", k, 0, [st EXCEPT ![k] = "V"], vault - 1)
\* by-value self method
Consume(k)   == st[k] = "V" /\ Movable(ty) /\ Do("consume", k, 0, [st EXCEPT ![k] = After(ty)], vault)
\* Rust swaps two objects through mutable references
RustSwap(k, j) == k < j /\ st[k] = "V" /\ st[j] = "V" /\ Do("rustswap", k, j, st, vault)
CxxSwap(k, j) == k < j /\ st[k] = "V" /\ st[j] = "V" /\ Movable(ty) /\ Do("cxxswap", k, j, st, vault)
\* a function taking (T, T) by value that returns them as a tuple in the other order, assigned back
Pair(k, j)   == k < j /\ st[k] = "V" /\ st[j] = "V" /\ Movable(ty) /\ Do("pair", k, j, st, vault)
\* the same through an array of two
Array(k, j)  == k < j /\ st[k] = "V" /\ st[j] = "V" /\ Movable(ty) /\ Do("array", k, j, st, vault)
\* a nested tuple (T, (i32, T)) -> ((T, i32), T)
Nest(k, j)   == k < j /\ st[k] = "V" /\ st[j] = "V" /\ Movable(ty) /\ Do("nest", k, j, st, vault)
\* wrapped into Option by C++, passed through Rust, unwrapped and assigned back
Opt(k)       == st[k] = "V" /\ Movable(ty) /\ Do("opt", k, 0, st, vault)
\* moved into a public field of another class by Rust, moved out of the field by C++
Field(k)     == st[k] = "V" /\ Movable(ty) /\ Do("field", k, 0, st, vault)
\* two fresh values in an array, by value into Rust and back, then gone
MkArray(k)   == k = 1 /\ (Movable(ty) \/ "immovable" \in Ops) /\ Do("mkarray", k, 0, st, vault)
\* replace(&mut k, j by value) -> old value, assigned to j
Replace(k, j) == k # j /\ st[k] = "V" /\ st[j] = "V" /\ Movable(ty) /\ Do("replace", k, j, st, vault)

Next == /\ Len(hist) <= MaxLen
        /\ \E k \in Slots :
           \/ Make(k) \/ Default(k) \/ Destroy(k) \/ Give(k) \/ GiveCopy(k) \/ Take(k) \/ Consume(k) \/ Opt(k) \/ Field(k) \/ MkArray(k)
           \/ \E j \in Slots : CopyNew(k, j) \/ MoveNew(k, j) \/ CopyTo(k, j) \/ MoveTo(k, j) \/ RustSwap(k, j)
                               \/ CxxSwap(k, j) \/ Pair(k, j) \/ Array(k, j) \/ Replace(k, j) \/ Nest(k, j)
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') > MaxLen => PrintT("@@" \o ToJson(hist'))

TypeOK == st \in [Slots -> {"A", "V", "S"}] /\ vault \in 0..MaxVault
StaleOnlyIfTrivial == (\E k \in Slots : st[k] = "S") => ~ty.drop /\ ~ty.copy
-------------------------------------------------------------------------------
(* What one step may do to the values.  pre and post give for every slot the id of
   the value it holds (0: none or not observable) and the vault as a sequence; ev is
   the sequence of events Rust saw:
     <<"new", id>>  <<"dflt", id>>  <<"clone", src, id>>  <<"from", old, src, id>>
     <<"use", id>>  <<"drop", id>>                                                *)

\* The live set after the events, or {-1} if one of them touches a dead value.
RECURSIVE Fold(_, _, _)
Fold(ev, i, live) ==
  IF i > Len(ev) THEN live ELSE
  LET e == ev[i] IN
  CASE e[1] \in {"new", "dflt"} -> IF e[2] \in live THEN {-1} ELSE Fold(ev, i + 1, live \cup {e[2]})
    [] e[1] = "clone" -> IF e[2] \notin live \/ e[3] \in live THEN {-1} ELSE Fold(ev, i + 1, live \cup {e[3]})
    [] e[1] = "from" -> IF e[2] \notin live \/ e[3] \notin live THEN {-1}
                        ELSE Fold(ev, i + 1, (live \ {e[2]}) \cup {e[4]})
    [] e[1] = "use" -> IF e[2] \notin live THEN {-1} ELSE Fold(ev, i + 1, live)
    [] e[1] = "drop" -> IF e[2] \notin live THEN {-1} ELSE Fold(ev, i + 1, live \ {e[2]})

Ids(p) == {p.slot[k] : k \in {k \in Slots : p.slot[k] > 0}} \cup {p.vault[i] : i \in 1..Len(p.vault)}
Count(p) == Cardinality({k \in Slots : p.slot[k] > 0}) + Len(p.vault)
Has(ev, e) == \E i \in 1..Len(ev) : ev[i] = e
\* v is a clone of u made during the step (possibly through an intermediate clone)
RECURSIVE IsClone(_, _, _, _)
IsClone(ev, u, v, d) == d > 0 /\ \E i \in 1..Len(ev) :
   \/ ev[i][1] = "clone" /\ ev[i][3] = v /\ (ev[i][2] = u \/ IsClone(ev, u, ev[i][2], d - 1))
   \/ ev[i][1] = "from" /\ ev[i][4] = v /\ (ev[i][3] = u \/ IsClone(ev, u, ev[i][3], d - 1))
\* u's value arrived at v by a move
Moved(t, ev, u, v) == IF Style(t) = "copy" THEN v = u \/ IsClone(ev, u, v, 3) ELSE v = u
\* what a moved-from object holds: bytes -> unchanged if Copy; take -> a new default; copy -> as before
Left(t, ev, u, w) == CASE Style(t) = "bytes" -> t.copy => w = u
                       [] Style(t) = "take" -> Has(ev, <<"dflt", w>>)
                       [] OTHER -> w = u
\* after a move assignment the source is valid, nothing more
LeftAssign(t, ev, u, w) == CASE Style(t) = "bytes" -> t.copy => w = u
                             [] Style(t) = "take" -> w > 0
                             [] OTHER -> w = u
\* clones of values without identity keep the payload: ids of Copy values are their payload
Cloned(t, ev, u, v) == IF t.copy THEN v = u ELSE IsClone(ev, u, v, 2)

Same(pre, post, X) == \A k \in Slots \ X : post.slot[k] = pre.slot[k]

\* values that were there before the step and may not be dropped by it, nor appear elsewhere
OpOK(t, s, pre, post, ev) ==
  LET k == s.k  j == s.j
      a == pre.slot[k]  b == IF j > 0 THEN pre.slot[j] ELSE 0
      a2 == post.slot[k] b2 == IF j > 0 THEN post.slot[j] ELSE 0
      keep == post.vault = pre.vault
  IN CASE s.op = "make"    -> Same(pre, post, {k}) /\ keep /\ Has(ev, <<"new", a2>>)
       [] s.op = "default" -> Same(pre, post, {k}) /\ keep /\ Has(ev, <<"dflt", a2>>)
       [] s.op = "copynew" -> Same(pre, post, {k}) /\ keep /\ Cloned(t, ev, b, a2)
       [] s.op = "movenew" -> Same(pre, post, {k, j}) /\ keep /\ Moved(t, ev, b, a2) /\ Left(t, ev, b, b2)
       [] s.op = "copyto"  -> Same(pre, post, {k}) /\ keep
                              /\ IF k = j THEN a2 = a \/ Cloned(t, ev, a, a2) ELSE Cloned(t, ev, b, a2)
                              \* a type's own clone_from is the one that runs
                              /\ k # j /\ t.leaf /\ ~t.copy =>
                                   \E i \in 1..Len(ev) : ev[i][1] = "from" /\ ev[i][3] = b /\ ev[i][4] = a2
       [] s.op = "moveto"  -> Same(pre, post, {k, j}) /\ keep
                              /\ IF k = j THEN a2 = a \/ (Style(t) = "copy" /\ IsClone(ev, a, a2, 2))
                                 ELSE Moved(t, ev, b, a2) /\ LeftAssign(t, ev, b, b2)
       [] s.op = "destroy" -> Same(pre, post, {k}) /\ keep /\ a2 = 0 /\ (t.drop => Has(ev, <<"drop", a>>))
       [] s.op \in {"give", "givecopy"} ->
            /\ Len(post.vault) = Len(pre.vault) + 1 /\ SubSeq(post.vault, 1, Len(pre.vault)) = pre.vault
            /\ LET v == post.vault[Len(post.vault)] IN
               IF s.op = "give" THEN Same(pre, post, {k}) /\ Moved(t, ev, a, v) /\ Left(t, ev, a, a2)
               ELSE Same(pre, post, {}) /\ Cloned(t, ev, a, v)
       [] s.op = "take"    -> Same(pre, post, {k}) /\ a2 = pre.vault[Len(pre.vault)]
                              /\ post.vault = SubSeq(pre.vault, 1, Len(pre.vault) - 1)
       [] s.op = "consume" -> Same(pre, post, {k}) /\ keep /\ Left(t, ev, a, a2)
                              /\ s.res \in {e[2] : e \in {ev[i] : i \in {i \in 1..Len(ev) : ev[i][1] = "use"}}}
                              /\ Moved(t, ev, a, s.res)
                              /\ (t.drop => Has(ev, <<"drop", s.res>>))
       [] s.op = "rustswap" -> Same(pre, post, {k, j}) /\ keep /\ a2 = b /\ b2 = a
       [] s.op \in {"cxxswap", "pair", "array", "nest"} ->
                               Same(pre, post, {k, j}) /\ keep
                               /\ (IF Style(t) = "copy" THEN a2 = b \/ IsClone(ev, b, a2, 9) ELSE a2 = b)
                               /\ (IF Style(t) = "copy" THEN b2 = a \/ IsClone(ev, a, b2, 9) ELSE b2 = a)
       [] s.op \in {"opt", "field"} ->
                               Same(pre, post, {k}) /\ keep
                               /\ (IF Style(t) = "copy" THEN a2 = a \/ IsClone(ev, a, a2, 9) ELSE a2 = a)
       [] s.op = "replace" -> Same(pre, post, {k, j}) /\ keep
                              /\ (IF Style(t) = "copy" THEN a2 = b \/ IsClone(ev, b, a2, 9) ELSE a2 = b)
                              /\ (IF Style(t) = "copy" THEN b2 = a \/ IsClone(ev, a, b2, 9) ELSE b2 = a)
       [] s.op = "mkarray" -> Same(pre, post, {}) /\ keep /\ Cardinality({i \in 1..Len(ev) : ev[i][1] = "new"}) = 2
       [] s.op = "end"     -> Count(post) = 0

\* Ownership: every value that was born is in exactly one place or was dropped exactly once.
Conserved(t, pre, post, ev) ==
  t.drop => /\ Fold(ev, 1, Ids(pre)) = Ids(post)
            /\ Count(post) = Cardinality(Ids(post))
\* an empty or unobservable slot is logged as 0
Shape(s, post) == \A k \in Slots : (s.st[k] = "V") <=> (post.slot[k] > 0)
=============================================================================
