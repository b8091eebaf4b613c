---------------------------------- MODULE Alias ----------------------------------
(* A call passes references into one arena of bytes.  First a signature is chosen (the
   kinds of its parameters and how it is called), then every parameter is placed, then
   the call is refused or goes through.  A reference covers a set of bytes; the call is
   refused exactly when a mutable one shares a byte with another one.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,     \* [name, size, slice, mut, ref]: element size, whether a slice, ...
          Forms,     \* how it is called: [recv |-> "none" | "self" | "trait", lt |-> BOOLEAN]
          Self,      \* names of the kinds a receiver may have
          MinParams, MaxParams, Arena, MaxSlice, MaxCalls
VARIABLES form, sig, ready, pl, calls, hist
vars == <<form, sig, ready, pl, calls, hist>>
view == <<form, sig, ready, pl, calls>>
Init == form \in Forms /\ sig = <<>> /\ ready = FALSE /\ pl = <<>> /\ calls = 0 /\ hist = <<>>
Param(k) == /\ ~ready /\ Len(sig) < MaxParams
            /\ (form.recv # "none" /\ sig = <<>>) => k.name \in Self
            /\ k.name = "vP" => sig = <<>> /\ form.recv = "self"
            /\ sig' = Append(sig, k) /\ UNCHANGED <<form, ready, pl, calls, hist>>
Done == /\ ~ready /\ Len(sig) >= MinParams /\ ready' = TRUE /\ UNCHANGED <<form, sig, pl, calls, hist>>
Place(s, n) == LET k == sig[Len(pl) + 1] IN
  /\ ready /\ Len(pl) < Len(sig) /\ calls < MaxCalls
  /\ s + n * k.size <= Arena
  /\ IF k.slice THEN TRUE ELSE n = 1
  /\ pl' = Append(pl, <<s, n>>) /\ UNCHANGED <<form, sig, ready, calls, hist>>
Bytes(i) == {x \in 0..(Arena - 1) : pl[i][1] <= x /\ x < pl[i][1] + pl[i][2] * sig[i].size}
Refused == \E i, j \in 1..Len(sig) : i # j /\ sig[i].mut /\ sig[j].ref /\ Bytes(i) \cap Bytes(j) # {}
Call == /\ ready /\ Len(pl) = Len(sig) /\ calls < MaxCalls
        /\ hist' = <<[form |-> form, sig |-> [i \in 1..Len(sig) |-> sig[i].name], pl |-> pl, no |-> Refused]>>
        /\ calls' = calls + 1 /\ pl' = <<>> /\ UNCHANGED <<form, sig, ready>>
Next == Done \/ Call \/ (\E k \in Kinds : Param(k)) \/ \E s \in 0..Arena, n \in 0..MaxSlice : Place(s, n)
Spec == Init /\ [][Next]_vars
Emit == hist' # <<>> /\ calls' > calls => PrintT("@@" \o ToJson(hist'))
\* consequences: what the order of parameters is does not matter; shared ones never clash
SharedOnly == (\A i \in 1..Len(sig) : ~sig[i].mut) /\ Len(pl) = Len(sig) => ~Refused
Known == \A i \in 1..Len(sig) : sig[i].mut => sig[i].ref
=================================================================================
