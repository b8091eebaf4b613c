-------------------------------- MODULE OwnTrace --------------------------------
(* Checks recorded executions of the generated bindings against Own.  Each recorded
   execution is [ty, steps]; every step has the operation, the events and the contents
   of all slots and the vault afterwards.  An execution that takes a step Own does not
   allow is printed.                                                              *)
EXTENDS Own
CONSTANT File
Runs == JsonDeserialize(File)
VARIABLES h, l, pre
tvars == <<h, l, pre>>
Empty == [slot |-> [k \in Slots |-> 0], vault |-> <<>>]
TInit == /\ h \in 1..Len(Runs) /\ l = 1 /\ pre = Empty
         /\ ty = Runs[h].ty /\ st = [k \in Slots |-> "A"] /\ vault = 0 /\ hist = <<>>
Step == Runs[h].steps[l]
Post == [slot |-> Step.slot, vault |-> Step.vault]
Why == <<IF Shape(Step, Post) THEN "" ELSE "an object is missing or unreadable",
         IF Conserved(Runs[h].ty, pre, Post, Step.ev) THEN "" ELSE "a value was lost, dropped twice or used after its drop",
         IF OpOK(Runs[h].ty, Step, pre, Post, Step.ev) THEN "" ELSE "the operation left the wrong values">>
TNext == /\ l <= Len(Runs[h].steps)
         /\ IF Why = <<"", "", "">>
            THEN l' = l + 1 /\ pre' = Post
            ELSE PrintT("@@" \o ToJson([run |-> h, step |-> l, why |-> Why])) /\ l' = Len(Runs[h].steps) + 1 /\ pre' = Empty
         /\ UNCHANGED <<h, ty, st, vault, hist>>
TSpec == TInit /\ [][TNext]_<<tvars, vars>>
=============================================================================
