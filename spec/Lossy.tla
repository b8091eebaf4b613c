---------------------------------- MODULE Lossy ----------------------------------
(* Incremental lossy UTF-8 decoding.  The decoder keeps at most three bytes of an
   incomplete sequence; bytes arrive by "slice" (a chunk), "byte" and "fill" (n times
   one byte); "flush" ends an incomplete sequence.  Every step records what each single
   byte makes the decoder emit (65533 is U+FFFD), so that a run in which the sink fails
   after some bytes can be judged as well.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bytes, MaxSlice, MaxFill, MaxLen
VARIABLES q,     \* <<to come, low, high, value>> as in Text; q[1] = 0: nothing pending
          in,    \* all bytes so far
          out,   \* all code points emitted so far
          buf,   \* the chunk being put together
          hist
vars == <<q, in, out, buf, hist>>
view == <<q, buf, Len(hist)>>
U == INSTANCE Text WITH s <- in, cs <- out, dead <- 0, die <- 0, Job <- "", Points <- {}, Extra <- 0
FFFD == 65533
\* one byte: <<state, emitted>>
One(p, b) == LET r == U!Read(p, b) IN
   IF r[1] = 0 THEN <<r, <<r[4]>>>>
   ELSE IF r[1] > 0 THEN <<r, <<>>>>
   ELSE IF p[1] = 0 THEN <<U!Start, <<FFFD>>>>
   ELSE LET r2 == U!Read(U!Start, b) IN       \* the pending sequence ends before b
        IF r2[1] = 0 THEN <<r2, <<FFFD, r2[4]>>>>
        ELSE IF r2[1] > 0 THEN <<r2, <<FFFD>>>>
        ELSE <<U!Start, <<FFFD, FFFD>>>>
RECURSIVE Run(_, _, _), Cat(_)
Run(p, bs, acc) == IF bs = <<>> THEN <<p, acc>> ELSE
   LET r == One(p, Head(bs)) IN Run(r[1], Tail(bs), Append(acc, r[2]))
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Init == q = U!Start /\ in = <<>> /\ out = <<>> /\ buf = <<>> /\ hist = <<>>
Do(op, bs) == LET r == Run(q, bs, <<>>) IN
  /\ Len(hist) < MaxLen
  /\ q' = r[1] /\ in' = in \o bs /\ out' = out \o Cat(r[2]) /\ buf' = <<>>
  /\ hist' = Append(hist, [op |-> op, b |-> bs, em |-> r[2], pend |-> r[1][1] > 0])
More(b) == Len(hist) < MaxLen /\ Len(buf) < MaxSlice /\ buf' = Append(buf, b) /\ UNCHANGED <<q, in, out, hist>>
Slice == Do("slice", buf)
Byte(b) == buf = <<>> /\ Do("byte", <<b>>)
Fill(b, n) == buf = <<>> /\ Do("fill", [i \in 1..n |-> b])
Flush == /\ Len(hist) < MaxLen /\ buf = <<>>
         /\ q' = U!Start /\ out' = IF q[1] > 0 THEN Append(out, FFFD) ELSE out
         /\ hist' = Append(hist, [op |-> "flush", b |-> <<>>, em |-> IF q[1] > 0 THEN <<<<FFFD>>>> ELSE <<>>, pend |-> FALSE])
         /\ UNCHANGED <<in, buf>>
Next == \/ Slice \/ Flush
        \/ \E b \in Bytes : More(b) \/ Byte(b) \/ \E n \in 0..MaxFill : Fill(b, n)
Spec == Init /\ [][Next]_vars
Emit == hist' # hist => PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') >= MaxLen /\ hist' # hist => PrintT("@@" \o ToJson(hist'))
\* however the input was cut, the output is the one of all bytes at once (flushes aside)
ChunkIndependent == (\A i \in 1..Len(hist) : hist[i].op # "flush") => out = Cat(Run(U!Start, in, <<>>)[2])
Pending == q[1] \in 0..3
=================================================================================
