---------------------------------- MODULE Wrap ----------------------------------
(* C++ ownership wrappers of the support library: rs::Movable<T> (m), crubit::Slot<T>
   (s) and plain values of T (v), over a value type T described by
     copy   copy constructible and assignable
     move   has its own move constructor and assignment
     reloc  has the relocating constructor T(UnsafeRelocateTag, T&&)
     arr    T is a std::array of two such elements
   A cell holds Absent (no C++ object), Empty (a wrapper without a value: a Movable
   moved from, a Slot uninitialised), Husk (a constructed but moved-from value), or
   the payload (> 0) of the value in it.  live is the number of constructed values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NM, NS, NVal, MaxId, MaxLen, Types
Absent == 0  Empty == -1  Husk == -2
VARIABLES ty, m, s, v, live, nid, hist
vars == <<ty, m, s, v, live, nid, hist>>
view == <<ty, m, s, v, live, nid>>
Ms == 1..NM  Ss == 1..NS  Vs == 1..NVal
Init == /\ ty \in Types /\ m = [i \in Ms |-> Absent] /\ s = [i \in Ss |-> Absent] /\ v = [i \in Vs |-> Absent]
        /\ live = 0 /\ nid = 0 /\ hist = <<[ty |-> ty]>>
Do(op, i, j, m2, s2, v2, l2, n2) ==
  /\ m' = m2 /\ s' = s2 /\ v' = v2 /\ live' = l2 /\ nid' = n2 /\ ty' = ty
  /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, m |-> m2, s |-> s2, v |-> v2, live |-> l2])
Set(f, i, x) == [f EXCEPT ![i] = x]
M(op, i, j, m2, dl) == Do(op, i, j, m2, s, v, live + dl, nid)
Fresh == nid + 1
CanFresh == nid < MaxId
Movable == ty.move \/ (ty.reloc /\ ~ty.arr)
Val(x) == x > 0
Own(x) == IF Val(x) THEN 1 ELSE 0          \* values a Movable in state x owns

\* ---- Movable
MDefault(i) == m[i] = Absent /\ CanFresh /\ Movable /\ Do("m_default", i, 0, Set(m, i, Fresh), s, v, live + 1, Fresh)
MInPlace(i) == m[i] = Absent /\ CanFresh /\ Movable /\ ~ty.arr /\ Do("m_inplace", i, 0, Set(m, i, Fresh), s, v, live + 1, Fresh)
MFromV(i, j) == m[i] = Absent /\ Val(v[j]) /\ ty.move /\ Do("m_fromv", i, j, Set(m, i, v[j]), s, Set(v, j, Husk), live + 1, nid)
MFromSlot(i, j) == m[i] = Absent /\ Val(s[j]) /\ Movable /\ Do("m_fromslot", i, j, Set(m, i, s[j]), Set(s, j, Empty), v, live, nid)
MMoveNew(i, j) == m[i] = Absent /\ m[j] # Absent /\ Movable /\ M("m_movenew", i, j, [m EXCEPT ![i] = m[j], ![j] = Empty], 0)
MMoveTo(i, j) == m[i] # Absent /\ m[j] # Absent /\ Movable
                 /\ IF i = j THEN M("m_moveto", i, j, m, 0)
                    ELSE M("m_moveto", i, j, [m EXCEPT ![i] = m[j], ![j] = Empty], -Own(m[i]))
MCopyNew(i, j) == m[i] = Absent /\ m[j] # Absent /\ ty.copy /\ M("m_copynew", i, j, Set(m, i, m[j]), Own(m[j]))
MCopyTo(i, j) == m[i] # Absent /\ m[j] # Absent /\ ty.copy
                 /\ IF i = j THEN M("m_copyto", i, j, m, 0) ELSE M("m_copyto", i, j, Set(m, i, m[j]), Own(m[j]) - Own(m[i]))
\* the copy constructor or assignment of T throws: nothing has happened
MCopyNewT(i, j) == m[i] = Absent /\ Val(m[j]) /\ ty.copy /\ ~ty.arr /\ M("m_copynew_throw", i, j, m, 0)
MCopyToT(i, j) == i # j /\ m[i] # Absent /\ Val(m[j]) /\ ty.copy /\ ~ty.arr /\ M("m_copyto_throw", i, j, m, 0)
MDestroy(i) == m[i] # Absent /\ M("m_destroy", i, 0, Set(m, i, Absent), -Own(m[i]))
MSwap(i, j) == i < j /\ m[i] # Absent /\ m[j] # Absent /\ Movable /\ M("m_swap", i, j, [m EXCEPT ![i] = m[j], ![j] = m[i]], 0)
\* the value is moved out through operator*() &&: the wrapper still owns a moved-from value
MSet(i) == Val(m[i]) /\ CanFresh /\ ~ty.arr /\ Do("m_set", i, 0, Set(m, i, Fresh), s, v, live, Fresh)
MFromMaker(i) == m[i] # Absent /\ CanFresh /\ Movable /\ ~ty.arr /\ Do("m_assignnew", i, 0, Set(m, i, Fresh), s, v, live + 1 - Own(m[i]), Fresh)
MSelfSwap(i) == m[i] # Absent /\ Movable /\ M("m_swap", i, i, m, 0)

\* ---- Slot
SNew(i) == s[i] = Absent /\ Do("s_new", i, 0, m, Set(s, i, Empty), v, live, nid)
SFill(i) == s[i] = Empty /\ CanFresh /\ Do("s_fill", i, 0, m, Set(s, i, Fresh), v, live + 1, Fresh)
SFromV(i, j) == s[i] = Absent /\ Val(v[j]) /\ ty.move /\ Do("s_fromv", i, j, m, Set(s, i, v[j]), Set(v, j, Husk), live + 1, nid)
SMoveNew(i, j) == s[i] = Absent /\ Val(s[j]) /\ ty.move /\ Do("s_movenew", i, j, m, [s EXCEPT ![i] = s[j], ![j] = Husk], v, live + 1, nid)
STake(i, j) == Val(s[i]) /\ v[j] = Absent /\ (ty.reloc \/ ty.move) /\ Do("s_take", i, j, m, Set(s, i, Empty), Set(v, j, s[i]), live, nid)
\* the destructor of a slot leaves the value alone; only empty slots or slots whose value the caller destroyed go away here
SDestroyValue(i) == (Val(s[i]) \/ s[i] = Husk) /\ Do("s_destroyvalue", i, 0, m, Set(s, i, Empty), v, live - 1, nid)
SDestroy(i) == s[i] = Empty /\ Do("s_destroy", i, 0, m, Set(s, i, Absent), v, live, nid)
\* ... and leaves its value to the caller if there is one (who destroys it afterwards)
SLeak(i) == (Val(s[i]) \/ s[i] = Husk) /\ Do("s_leak", i, 0, m, Set(s, i, Absent), v, live - 1, nid)

\* ---- plain values and the helpers on them
VMake(i) == v[i] = Absent /\ CanFresh /\ Do("v_make", i, 0, m, s, Set(v, i, Fresh), live + 1, Fresh)
VDestroy(i) == v[i] # Absent /\ Do("v_destroy", i, 0, m, s, Set(v, i, Absent), live - 1, nid)
VAssign(i, j) == i # j /\ v[i] # Absent /\ Val(v[j]) /\ ty.move /\ Do("v_moveassign", i, j, m, s, [v EXCEPT ![i] = v[j], ![j] = Husk], live, nid)
VMemSwap(i, j) == i <= j /\ v[i] # Absent /\ v[j] # Absent /\ Do("v_memswap", i, j, m, s, [v EXCEPT ![i] = v[j], ![j] = v[i]], live, nid)

Next == /\ Len(hist) <= MaxLen
        /\ \/ \E i \in Ms : \/ MDefault(i) \/ MInPlace(i) \/ MDestroy(i) \/ MSet(i) \/ MFromMaker(i) \/ MSelfSwap(i)
                            \/ \E j \in Vs : MFromV(i, j)
                            \/ \E j \in Ss : MFromSlot(i, j)
                            \/ \E j \in Ms : MMoveNew(i, j) \/ MMoveTo(i, j) \/ MCopyNew(i, j) \/ MCopyTo(i, j) \/ MCopyNewT(i, j) \/ MCopyToT(i, j) \/ MSwap(i, j)
           \/ \E i \in Ss : \/ SNew(i) \/ SFill(i) \/ SDestroyValue(i) \/ SDestroy(i) \/ SLeak(i)
                            \/ \E j \in Vs : SFromV(i, j) \/ STake(i, j)
                            \/ \E j \in Ss : SMoveNew(i, j)
           \/ \E i \in Vs : VMake(i) \/ VDestroy(i) \/ \E j \in Vs : VAssign(i, j) \/ VMemSwap(i, j)
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') > MaxLen => PrintT("@@" \o ToJson(hist'))

Bound == Len(hist) < 40
\* every constructed value is in exactly one cell
Cells == Cardinality({i \in Ms : Val(m[i])}) + Cardinality({i \in Ss : s[i] \notin {Absent, Empty}}) + Cardinality({i \in Vs : v[i] # Absent})
Conserved == live = Cells
\* moves never duplicate a payload: it is in two places only for copyable types
Unique == ~ty.copy => \A p \in 1..nid :
   Cardinality({<<1, i>> : i \in {i \in Ms : m[i] = p}} \cup {<<2, i>> : i \in {i \in Ss : s[i] = p}} \cup {<<3, i>> : i \in {i \in Vs : v[i] = p}}) <= 1
=================================================================================
