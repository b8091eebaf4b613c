------------------------------- MODULE Items -------------------------------
(* E08, E09, E10.  A crate as the generator sees it: modules, items, the    *)
(* places where items mention types, re-exports and globs.  The actions      *)
(* build the crate one declaration at a time, in any order the Rust compiler *)
(* would accept; the operators below say which items C++ sees, under which   *)
(* path, and which ones have to be explained instead.                        *)
(*                                                                           *)
(* Module 0 is the root.  Names are numbers: rank * 100 + position, so names *)
(* are unique and the rank decides the alphabetical order, which differs     *)
(* from the order of declaration.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxMods, MaxItems, MaxUses, MaxExps, MaxMusts,
          Kinds,     \* item kinds in use
          Classes,   \* traits of types in use
          Forms,     \* ways of mentioning a type in use
          Ranks,
          Pubs, Hids, \* numbers: 0 is private, 1 is hidden from the documentation
          Neutral,   \* TRUE: no uses of types that are never bound
          Sampled    \* TRUE: simulation picks at random instead of listing

VARIABLES mods, items, uses, exps, done, hist
vars == <<mods, items, uses, exps, done, hist>>

TypeKinds == {"struct", "tuple", "enumc", "enumr", "union", "zst", "gen", "empty"}
BadTypes == {"zst", "gen", "empty"}                 \* types without bindings
BadItems == {"gfn", "static", "dynfn", "cgfn", "implfn", "conststruct"}
FnLike == {"fn", "method"}
Users == {"struct", "tuple", "enumc", "enumr", "union", "fn", "method", "alias"}

(* ------------------------------------------------------------------ forms *)
ByValue == {"val", "opt", "arr", "tup", "res", "rese", "arropt", "resopt", "optres", "arrarr", "rng"}
Heap == {"vec", "optvec", "vecopt", "box"}
Exclusive == {"mref", "mslice", "mrefopt", "emref"}     \* not Copy
Elided == {"eref", "emref", "eslice"}                   \* only in parameters
FormsAt(loc) == CASE loc = "param" -> Forms
                  [] loc = "ret"   -> Forms \ Elided
                  [] loc = "alias" -> Forms \ Elided
                  [] OTHER         -> Forms \ Elided

(* Forms no function may mention at all. *)
NeverBound == {"fnp", "fnv", "box", "pin", "bx", "rng", "phantom"}
(* ... and those excluded by what the mentioned type can do: types with drop *)
(* glue and neither Default nor Clone cannot be moved in C++ at all.         *)
Excluded(loc, cat) ==
  CASE cat = "immov" /\ loc = "param" -> {"val", "opt", "tup", "res", "rese", "refopt", "arropt", "resopt", "mrefopt", "optres", "arrarr", "vecopt"}
    [] cat = "immov" /\ loc = "ret"   -> {"opt", "tup", "refopt", "resopt", "mrefopt", "optres", "arrarr", "vecopt"}
    [] cat = "immov" /\ loc = "alias" -> {"resopt", "vecopt"}
    [] cat = "dflt" /\ loc = "param"  -> {"res", "rese", "resopt", "optres"}
    [] cat = "dflt" /\ loc = "ret"    -> {"optres"}
    [] cat = "clone" /\ loc # "alias" -> {"arrarr"}
    [] OTHER -> {}

(* ----------------------------------------------------------------- crates *)
Ix(s) == 1 .. Len(s)
RECURSIVE ModPath(_), ModVisible(_), ModHidden(_)
ModPath(m) == IF m = 0 THEN <<>> ELSE Append(ModPath(mods[m].par), mods[m].key)
ModVisible(m) == m = 0 \/ (mods[m].pub /\ ModVisible(mods[m].par))
ModHidden(m) == m # 0 /\ (mods[m].hid \/ ModHidden(mods[m].par))

UsesOf(i) == {n \in Ix(uses) : uses[n].at = i}

(* Does a value of type t run code when it is dropped?  By-value mentions    *)
(* form no cycles.                                                           *)
RECURSIVE Drops(_)
Drops(t) == \/ items[t].cls \in {"dflt", "clone", "both", "immov"}
            \/ \E n \in UsesOf(t) : \/ uses[n].form \in Heap
                                    \/ uses[n].form \in ByValue /\ Drops(uses[n].tgt)
(* What C++ can do with objects of a type. *)
Cat(t) == LET k == items[t].cls IN
  IF k \in {"copy", "both"} THEN k
  ELSE IF ~Drops(t) THEN "plain"
  ELSE IF k = "plain" THEN "immov" ELSE k

RECURSIVE Contains(_, _)
Contains(a, b) == a = b \/ \E n \in UsesOf(a) : uses[n].form \in ByValue /\ Contains(uses[n].tgt, b)

IsType(i) == items[i].kind \in TypeKinds
(* A type alias of a type is another path of that type. *)
Renames(a, t) == items[a].kind = "alias" /\ \E n \in UsesOf(a) : uses[n].tgt = t /\ uses[n].form = "val"
IsRename(a) == \E n \in UsesOf(a) : items[a].kind = "alias" /\ uses[n].form = "val"

(* The places where a declaration can be named from outside the crate:       *)
(* <<hidden, length, alias, re-exported, modules, name>>, best first.        *)
Num(b) == IF b THEN 1 ELSE 0
Place(m, a, r, key) == <<Num(ModHidden(m)), Len(ModPath(m)), a, r, ModPath(m), key>>
HomeNames(i, a) ==
  (IF items[i].pub /\ items[i].mod >= 0 /\ ModVisible(items[i].mod) THEN {Place(items[i].mod, a, 0, items[i].key)} ELSE {})
  \cup {Place(exps[e].mod, a, 1, exps[e].key) : e \in {x \in Ix(exps) : exps[x].kind = "use" /\ exps[x].tgt = i /\ ModVisible(exps[x].mod)}}
  \cup {Place(exps[e].mod, a, 1, items[i].key) : e \in {x \in Ix(exps) : exps[x].kind = "glob" /\ exps[x].tgt = items[i].mod /\ items[i].pub /\ ModVisible(exps[x].mod)}}
Names(i) == IF IsType(i) THEN HomeNames(i, 0) \cup UNION {HomeNames(a, 1) : a \in {x \in Ix(items) : Renames(x, i)}}
            ELSE HomeNames(i, 0)

RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE SeqLess(Tail(a), Tail(b))
Better(p, q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF p[2] # q[2] THEN p[2] < q[2]
                ELSE IF p[3] # q[3] THEN p[3] < q[3] ELSE IF p[4] # q[4] THEN p[4] < q[4]
                ELSE IF p[5] # q[5] THEN SeqLess(p[5], q[5]) ELSE p[6] < q[6]
Canonical(i) == CHOOSE p \in Names(i) : \A q \in Names(i) : q = p \/ Better(p, q)

(* --------------------------------------------------------- what C++ sees *)
RECURSIVE Bound(_)
UseOk(n) == /\ Bound(uses[n].tgt)
            /\ uses[n].form \notin NeverBound
            /\ uses[n].form \notin Excluded(uses[n].loc, Cat(uses[n].tgt))
Bound(i) ==
  LET k == items[i].kind IN
  CASE k \in TypeKinds -> k \notin BadTypes /\ Names(i) # {}
    [] k = "method"    -> items[i].pub /\ Bound(items[i].own) /\ \A n \in UsesOf(i) : UseOk(n)
    [] k = "impl"      -> Bound(items[i].own) /\ Bound(items[i].trt)
    [] k \in BadItems  -> FALSE
    [] k = "alias"     -> IF IsRename(i) THEN Names(i) # {} /\ \A n \in UsesOf(i) : Bound(uses[n].tgt)
                          ELSE Names(i) # {} /\ \A n \in UsesOf(i) : UseOk(n)
    [] OTHER           -> Names(i) # {} /\ \A n \in UsesOf(i) : UseOk(n)
Visible(i) == CASE items[i].kind = "method" -> items[i].pub /\ Names(items[i].own) # {}
                [] items[i].kind = "impl"   -> Names(items[i].own) # {} /\ Names(items[i].trt) # {}
                [] OTHER -> Names(i) # {}
(* Unions and constants are offered under one path only; their other paths    *)
(* are explained.                                                            *)
Single(i) == items[i].kind \in {"union", "const"}
Offered(i) ==
  IF items[i].mod < 0 \/ ~Bound(i) THEN {}
  ELSE IF Single(i) THEN {Canonical(i)}
  ELSE IF IsRename(i) /\ \E n \in UsesOf(i) : Single(uses[n].tgt)
       THEN {p \in Names(i) : \E n \in UsesOf(i) : LET c == Canonical(uses[n].tgt) IN <<p[5], p[6]>> = <<c[5], c[6]>>}
  ELSE Names(i)
Explained(i) == /\ Visible(i) /\ ~Bound(i)
                /\ ~(items[i].kind \in {"method", "impl"} /\ ~Bound(items[i].own))
Failing(i) == items[i].must /\ Explained(i)

(* ---------------------------------------------------------------- actions *)
Init == mods = <<>> /\ items = <<>> /\ uses = <<>> /\ exps = <<>> /\ done = FALSE /\ hist = <<>>

Some(S) == IF Sampled /\ S # {} THEN {RandomElement(S)} ELSE S

Tries == IF Sampled THEN 1 .. 6 ELSE {1}
AddMod == /\ ~done /\ items = <<>> /\ Len(mods) < MaxMods
          /\ \E par \in Some(0 .. Len(mods)), pub \in Some(Pubs), hid \in Some(Hids), r \in Some(Ranks) :
               mods' = Append(mods, [par |-> par, pub |-> pub > 0, hid |-> hid = 1, key |-> r * 100 + Len(mods) + 60])
          /\ UNCHANGED <<items, uses, exps, done, hist>>

ClsOf(k) == CASE k = "union" -> {"copy"}
              [] k \in {"struct", "tuple", "enumc", "enumr"} -> Classes
              [] OTHER -> {"copy"}
HasBound(S) == {i \in Ix(items) : items[i].kind \in S}
AddItem ==
  /\ ~done /\ uses = <<>> /\ exps = <<>> /\ Len(items) < MaxItems
  /\ Sampled => Len(mods) = MaxMods
  /\ \E q \in Tries : \E k \in Some(Kinds), m \in Some(0 .. Len(mods)), pub \in Some(Pubs), r \in Some(Ranks) :
       \E c \in Some(ClsOf(k)) :
       LET base == [kind |-> k, mod |-> m, pub |-> pub > 0, cls |-> c, key |-> r * 100 + Len(items) + 1, own |-> 0, trt |-> 0, must |-> FALSE]
           owners == {i \in HasBound(TypeKinds \ BadTypes) : TRUE} IN
       CASE k = "method" -> owners # {} /\ \E o \in Some(owners) : items' = Append(items, [base EXCEPT !.own = o, !.mod = -1])
         [] k = "impl" -> owners # {} /\ HasBound({"trait"}) # {} /\ \E o \in Some(owners), t \in Some(HasBound({"trait"})) :
                            /\ ~\E i \in Ix(items) : items[i].kind = "impl" /\ items[i].own = o /\ items[i].trt = t
                            /\ items' = Append(items, [base EXCEPT !.own = o, !.trt = t, !.mod = -1])
         [] OTHER -> items' = Append(items, base)
  /\ UNCHANGED <<mods, uses, exps, done, hist>>

Locs(k) == CASE k \in {"fn", "method"} -> {"param", "ret"} [] k = "alias" -> {"alias"} [] OTHER -> {"field"}
Allowed(i, loc, form, t) ==
  LET k == items[i].kind IN
  /\ items[i].cls = "copy" /\ k \in TypeKinds =>
       /\ form \notin Heap \cup Exclusive \cup {"pin", "rng", "bx"}
       /\ form \in ByValue => items[t].cls = "copy" /\ items[t].kind \notin BadTypes
  /\ k \in TypeKinds /\ form \in ByValue => ~Contains(t, i)
  /\ loc \in {"ret", "alias"} => ~\E n \in UsesOf(i) : uses[n].loc = loc
  /\ k \in TypeKinds /\ form \in ByValue /\ items[t].kind = "empty" => FALSE   \* uninhabited fields
  /\ k \in {"enumc", "union"} => t # i                                         \* one C++ class inside another
  /\ Cardinality(UsesOf(i)) < 3
Pending == {i \in HasBound({"alias"}) : UsesOf(i) = {}}
AddUse ==
  /\ ~done /\ exps = <<>> /\ Len(uses) < MaxUses
  /\ Sampled => Len(items) = MaxItems
  /\ HasBound(Users) # {} /\ HasBound(TypeKinds) # {}
  /\ \E q \in Tries : \E i \in Some(IF Sampled /\ Pending # {} THEN Pending ELSE HasBound(Users)), t \in Some(IF Neutral THEN HasBound(TypeKinds \ BadTypes) ELSE HasBound(TypeKinds)) :
     \E loc \in Some(Locs(items[i].kind)) :
     \E form \in Some(FormsAt(loc)) :
       /\ Allowed(i, loc, form, t)
       /\ uses' = Append(uses, [at |-> i, loc |-> loc, form |-> form, tgt |-> t])
  /\ UNCHANGED <<mods, items, exps, done, hist>>

(* An alias has to be an alias of something; a bare union or enum needs no mention. *)
Complete == Pending = {}

Globbed(m) == \E e \in Ix(exps) : exps[e].kind = "glob" /\ exps[e].tgt = m
AddExp ==
  /\ ~done /\ Complete /\ Len(exps) < MaxExps
  /\ Sampled => Len(uses) = MaxUses
  /\ \E q \in Tries : \E m \in Some(0 .. Len(mods)), ren \in Some(BOOLEAN), r \in Some(Ranks) :
     \/ \E t \in Some({i \in Ix(items) : items[i].pub /\ items[i].mod >= 0 /\ items[i].mod # m}) :
          /\ ~\E e \in Ix(exps) : exps[e].mod = m /\ (exps[e].tgt = t \/ exps[e].kind = "glob")
          /\ ~Globbed(m)
          /\ exps' = Append(exps, [kind |-> "use", mod |-> m, tgt |-> t, key |-> IF ren THEN r * 100 + Len(exps) + 40 ELSE items[t].key])
     \/ \E g \in Some(Ix(mods)) :
          /\ g # m /\ ~\E x \in Ix(mods) : mods[x].par = g
          /\ ~\E e \in Ix(exps) : exps[e].mod = g \/ (exps[e].mod = m)
          /\ ~Globbed(m)
          /\ exps' = Append(exps, [kind |-> "glob", mod |-> m, tgt |-> g, key |-> 0])
  /\ UNCHANGED <<mods, items, uses, done, hist>>

AddMust ==
  /\ ~done /\ exps = <<>> /\ uses # <<>> /\ Cardinality({i \in Ix(items) : items[i].must}) < MaxMusts
  /\ \E i \in Some({x \in Ix(items) : items[x].kind \in {"fn", "struct", "tuple", "enumr", "gfn", "zst", "method"}}) :
       items' = [items EXCEPT ![i].must = TRUE]
  /\ UNCHANGED <<mods, uses, exps, done, hist>>

Verdict(i) == [bound |-> Bound(i), offered |-> Offered(i), visible |-> Visible(i), explained |-> Explained(i), failing |-> Failing(i),
               names |-> IF items[i].mod < 0 THEN {} ELSE Names(i),
               canon |-> IF items[i].mod < 0 \/ Names(i) = {} THEN <<>> ELSE Canonical(i)]
Done ==
  /\ ~done /\ items # <<>> /\ Complete
  /\ Sampled => Len(uses) = MaxUses
  /\ done' = TRUE
  /\ hist' = <<[mods |-> mods, items |-> items, uses |-> uses, exps |-> exps, verdicts |-> [i \in Ix(items) |-> Verdict(i)]]>>
  /\ UNCHANGED <<mods, items, uses, exps>>

Next == AddMod \/ AddItem \/ AddUse \/ AddMust \/ AddExp \/ Done
Spec == Init /\ [][Next]_vars
View == <<mods, items, uses, exps, done>>

(* ------------------------------------------------------------- invariants *)
(* Every item the crate offers is bound or explained (or its owner is).      *)
Total == \A i \in Ix(items) : Visible(i) => Bound(i) \/ Explained(i) \/ Explained(items[i].own)
(* Nothing that cannot be named from outside the crate is bound.             *)
NoLeak == \A i \in Ix(items) : Bound(i) => Visible(i)
(* A bound function mentions only bound types.                               *)
Closed == \A i \in Ix(items) : Bound(i) /\ items[i].kind \in FnLike => \A n \in UsesOf(i) : Bound(uses[n].tgt)
(* Definitions can be put in an order in which every member is complete.     *)
Orderable == \A n \in Ix(uses) : IsType(uses[n].at) /\ uses[n].form \in ByValue => ~Contains(uses[n].tgt, uses[n].at)
(* One path never stands for two different things.                           *)
Where(p) == <<p[5], p[6]>>
Unambiguous == \A i, j \in {x \in Ix(items) : items[x].mod >= 0 /\ ~IsRename(x)} :
                 i # j => {Where(p) : p \in Names(i)} \cap {Where(p) : p \in Names(j)} = {}

(* ------------------------------------------------------------- isolation *)
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE
  Reach(S \cup {i \in Ix(items) : (\E n \in UsesOf(i) : uses[n].tgt \in S) \/ items[i].own \in S \/ items[i].trt \in S}, k - 1)
DependsOn(i) == Reach({i}, Len(items))
Facts(i) == <<Bound(i), Visible(i), IF items[i].mod < 0 THEN {} ELSE Names(i)>>
(* A new declaration changes nothing but itself and what depends on it: the  *)
(* item that gets a mention (or an export), and those that mention it; an    *)
(* alias or export also touches the type it names.                           *)
Touched == IF Len(items') > Len(items) THEN {}
           ELSE IF Len(uses') > Len(uses) THEN LET u == uses'[Len(uses')] IN DependsOn(u.at) \cup (IF u.loc = "alias" THEN DependsOn(u.tgt) ELSE {})
           ELSE IF Len(exps') > Len(exps) THEN LET e == exps'[Len(exps')] IN
                  LET hit == IF e.kind = "use" THEN {e.tgt} ELSE {i \in Ix(items) : items[i].mod = e.tgt} IN
                  UNION {DependsOn(h) : h \in hit} \cup UNION {UNION {DependsOn(uses[n].tgt) : n \in UsesOf(h)} : h \in {x \in hit : items[x].kind = "alias"}}
           ELSE {}
Isolated == [][\A i \in Ix(items) : i \notin Touched => Facts(i)' = Facts(i)]_vars

Emit == hist' = <<>> \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
