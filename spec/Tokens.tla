---------------------------------- MODULE Tokens ----------------------------------
(* Printing tokens.  A sequence of tokens is put together one by one; for each token the
   machine says how it must be separated from what was printed before it: "must" (white
   space is needed, or the two would read as something else), "none" (they belong
   together) or "opt".  Layout markers print exactly their white space or comment.
   Captures record which identifier belongs to the last tag.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Lits, Puncts, Coms, Texts, Delims, MaxLen, MaxDepth, Capture
VARIABLES last,    \* last printed token: [c |-> class, v |-> value, j |-> joint]
          colon,   \* how the last token relates to ::  0 no colon, 1 first of ::, 2 second of ::, 3 lone
          stack,   \* open groups
          cap,     \* 0 no tag yet, 1 tag seen, 2 in a capture before its token, 3 after it
          tag,     \* number of tags so far
          hist
vars == <<last, colon, stack, cap, tag, hist>>
view == <<last, colon, stack, cap, tag > 0, Len(hist)>>
Blank == [c |-> "blank", v |-> "", j |-> FALSE]
Word(t) == t.c \in {"id", "lit", "lt"}
Joint == last.c = "p" /\ last.j
NumDot(t) == t.c = "p" /\ t.v = "."
Sep(t) == IF Word(last) /\ Word(t) THEN "must"
          ELSE IF last.c \in {"id", "lt"} /\ t.c = "p" /\ t.v = "#" THEN "must"
          ELSE IF last.c = "p" /\ last.v = "/" /\ t.c = "p" /\ t.v \in {"/", "*"} THEN "must"
          ELSE IF colon = 1 THEN "none"
          ELSE IF colon \in {2, 3} /\ t.c = "p" /\ t.v = ":" THEN "must"
          ELSE "opt"
Init == last = Blank /\ colon = 0 /\ stack = <<>> /\ cap = 0 /\ tag = 0 /\ hist = <<>>
More == Len(hist) < MaxLen
Rec(t) == hist' = Append(hist, [t |-> t, sep |-> Sep(t), tag |-> tag', cap |-> cap = 2])
Colon(t) == IF t.c # "p" \/ t.v # ":" THEN 0 ELSE IF colon = 1 THEN 2 ELSE IF t.j THEN 1 ELSE 3
\* a token that prints text
Tok(t) == /\ More
          /\ Joint => t.c = "p"                       \* only punctuation follows a joint punct
          /\ colon = 1 => t.v = ":" /\ ~t.j
          /\ NumDot(last) => t.c # "lit"              \* 1 . 2 reads as a number, in any language
          /\ last.c = "lit" => ~NumDot(t)
          /\ (last.c = "p" /\ last.j /\ last.v = "/") => t.v \notin {"/", "*"}
          /\ cap = 2 => t.c = "id"
          /\ cap # 3
          /\ last' = t /\ colon' = Colon(t) /\ cap' = (IF cap = 2 THEN 3 ELSE cap)
          /\ UNCHANGED <<stack, tag>> /\ Rec(t)
Open(d) == /\ More /\ Len(stack) < MaxDepth /\ ~Joint /\ cap < 2
           /\ stack' = Append(stack, d) /\ last' = Blank /\ colon' = 0 /\ UNCHANGED <<cap, tag>>
           /\ Rec([c |-> "open", v |-> d, j |-> FALSE])
Close == /\ More /\ stack # <<>> /\ ~Joint /\ cap < 2
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ last' = Blank /\ colon' = 0 /\ UNCHANGED <<cap, tag>>
         /\ Rec([c |-> "close", v |-> stack[Len(stack)], j |-> FALSE])
\* a comment directly after a lone "/" is outside: no generator prints a division before a comment
Mark(t) == /\ More /\ ~Joint /\ cap < 2 /\ ~(t.c = "com" /\ last.v = "/") /\ last' = Blank /\ colon' = 0 /\ UNCHANGED <<stack, cap>>
           /\ tag' = (IF t.c = "tag" THEN tag + 1 ELSE tag)
           /\ Rec(t)
T(c, v) == [c |-> c, v |-> v, j |-> FALSE]
\* a tag starts an item: it prints a comment, nothing is captured before the first one
Tag == Capture /\ cap < 2 /\ ~Joint /\ More /\ last.c # "p" /\ cap' = 1 /\ tag' = tag + 1 /\ last' = Blank /\ colon' = 0
       /\ UNCHANGED stack /\ Rec(T("tag", ""))
Begin == Capture /\ cap = 1 /\ More /\ last.c # "p" /\ cap' = 2 /\ UNCHANGED <<last, colon, stack, tag>> /\ hist' = Append(hist, [t |-> T("beg", ""), sep |-> "opt", tag |-> tag, cap |-> FALSE])
End == cap = 3 /\ More /\ cap' = 1 /\ UNCHANGED <<last, colon, stack, tag>> /\ hist' = Append(hist, [t |-> T("end", ""), sep |-> "opt", tag |-> tag, cap |-> FALSE])
Next == \/ \E v \in Ids : Tok(T("id", v))
        \/ \E v \in Lits : Tok(T("lit", v))
        \/ \E v \in Ids : Tok(T("lt", v))
        \/ \E v \in Puncts, j \in BOOLEAN : Tok([c |-> "p", v |-> v, j |-> j])
        \/ \E d \in Delims : Open(d)
        \/ Close
        \/ Mark(T("nl", "")) \/ Mark(T("sp", "")) \/ Mark(T("hash", ""))
        \/ \E v \in Coms : Mark(T("com", v))
        \/ \E v \in Texts : Mark(T("lity", v))
        \/ Tag \/ Begin \/ End
Spec == Init /\ [][Next]_vars
Done == stack' = <<>> /\ ~(last'.c = "p" /\ last'.j) /\ cap' \notin {2, 3} /\ hist' # hist
Emit == Done => PrintT("@@" \o ToJson(hist'))
EmitLast == Done /\ Len(hist') > MaxLen \div 2 => PrintT("@@" \o ToJson(hist'))
\* what is glued is glued for a reason, what is separated could otherwise be misread
Glue == \A i \in 1..Len(hist) : hist[i].sep = "none" => hist[i].t.v = ":" /\ hist[i - 1].t.v = ":" /\ hist[i - 1].t.j
Nested == Len(stack) <= MaxDepth
=================================================================================
