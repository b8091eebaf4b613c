--------------------------------- MODULE Special ---------------------------------
(* Which special member functions a generated C++ class has.

   A Rust type is described by its kind, its fields (each with the traits of its type)
   and the traits implemented for it.  The rules are those of docs/rust/movable_types.md
   and of the generated constructors: default construction is Default, copying is Clone,
   copying is trivial for Copy, and moving is
       trivial            if the type has no drop glue
       mem::take          if it is Default and Unpin
       copying            if it is Clone
       not available      otherwise.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fields,     \* set of records [name, copy, clone, dflt, drop, unpin, zst]
          MaxFields, Kinds
VARIABLES t, done
vars == <<t, done>>

All(fs, P(_)) == \A i \in 1..Len(fs) : P(fs[i])
Some(fs, P(_)) == \E i \in 1..Len(fs) : P(fs[i])
Tuples == UNION {[1..n -> Fields] : n \in 1..MaxFields}

Legal(k, fs, copy, clone, dflt, drop) ==
  /\ copy => clone /\ ~drop /\ All(fs, LAMBDA f : f.copy)
  /\ Some(fs, LAMBDA f : ~f.zst)
  /\ k = "transparent" => Cardinality({i \in 1..Len(fs) : ~fs[i].zst}) = 1
  /\ k = "union" => All(fs, LAMBDA f : ~f.drop /\ (f.copy \/ f.mdrop))

NeedsDrop(x) == x.drop \/ (x.kind # "union" /\ Some(x.fields, LAMBDA f : f.drop))
Unpin(x) == All(x.fields, LAMBDA f : f.unpin)
Trivial(x) == ~NeedsDrop(x)
Movable(x) == Trivial(x) \/ (x.dflt /\ Unpin(x)) \/ x.clone

Expect(x) == [default_ctor |-> x.dflt, copy_ctor |-> x.clone, copy_assign |-> x.clone,
              move_ctor |-> Movable(x), move_assign |-> Movable(x),
              trivial_copy |-> x.copy, trivial_move |-> Trivial(x), trivial_dtor |-> Trivial(x),
              bytes_ok |-> Trivial(x) /\ (x.copy \/ ~x.clone)]

Init == t = [kind |-> "none"] /\ done = FALSE
Choose == /\ t.kind = "none"
          /\ \E k \in Kinds, fs \in Tuples, c \in BOOLEAN, cl \in BOOLEAN, df \in BOOLEAN, dr \in BOOLEAN :
               /\ Legal(k, fs, c, cl, df, dr)
               /\ t' = [kind |-> k, fields |-> fs, copy |-> c, clone |-> cl, dflt |-> df, drop |-> dr]
          /\ done' = FALSE
Decide == t.kind # "none" /\ ~done /\ done' = TRUE /\ t' = t
Next == Choose \/ Decide
Spec == Init /\ [][Next]_vars
Emit == done' => PrintT("@@" \o ToJson([t |-> t, e |-> Expect(t)]))

\* A copyable class is movable, a trivially copyable one has no destructor, and so on.
Sane == t.kind # "none" =>
  LET e == Expect(t) IN
  /\ e.copy_ctor => e.move_ctor
  /\ e.trivial_copy => e.trivial_dtor /\ e.trivial_move /\ e.copy_ctor
  /\ e.bytes_ok => e.trivial_dtor /\ e.trivial_move
  /\ (~e.move_ctor) => NeedsDrop(t) /\ ~t.clone
=============================================================================
