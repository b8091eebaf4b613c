---------------------------------- MODULE Text ----------------------------------
(* UTF-8 as the state machine of RFC 3629, Unicode scalar values and their encoding,
   order and equality of strings, and views (slices) into an array.

   Job selects what is explored:
     "bytes"   byte strings over Bytes up to MaxLen; after a byte that makes the string
               invalid at most Extra further bytes follow
     "long"    random strings that stay valid up to a chosen byte
     "chars"   code points of Points: validity, encoding, comparison of two
     "pairs"   two strings of at most MaxLen code points of Points: order and equality
     "slices"  views of an array of MaxLen elements, built in every way, and their equality *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Job, Bytes, Points, MaxLen, Extra
VARIABLES s,      \* the bytes so far
          q,      \* state of the decoder: <<bytes still to come, low, high, value so far>>; q[1] = -1: dead
          cs,     \* code points decoded so far
          dead,   \* number of bytes since the string became invalid
          die,    \* ("long") position at which it is made invalid
          hist
vars == <<s, q, cs, dead, die, hist>>
Start == <<0, 0, 0, 0>>
Dead == <<-1, 0, 0, 0>>
\* the decoder after reading b in the state p
Read(p, b) ==
  IF p[1] = -1 THEN Dead
  ELSE IF p[1] > 0 THEN
    IF b < p[2] \/ b > p[3] THEN Dead ELSE <<p[1] - 1, 128, 191, p[4] * 64 + (b - 128)>>
  ELSE CASE b <= 127 -> <<0, 0, 0, b>>
         [] b \in 194..223 -> <<1, 128, 191, b - 192>>
         [] b = 224 -> <<2, 160, 191, 0>>
         [] b \in 225..236 \cup {238, 239} -> <<2, 128, 191, b - 224>>
         [] b = 237 -> <<2, 128, 159, 13>>
         [] b = 240 -> <<3, 144, 191, 0>>
         [] b \in 241..243 -> <<3, 128, 191, b - 240>>
         [] b = 244 -> <<3, 128, 143, 4>>
         [] OTHER -> Dead
Valid(p) == p[1] = 0
Scalar(c) == c <= 1114111 /\ ~(c \in 55296..57343)
Len8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Enc(c) == CASE Len8(c) = 1 -> <<c>>
            [] Len8(c) = 2 -> <<192 + (c \div 64), 128 + (c % 64)>>
            [] Len8(c) = 3 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
            [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE EncAll(_), Cmp(_, _)
EncAll(x) == IF x = <<>> THEN <<>> ELSE Enc(Head(x)) \o EncAll(Tail(x))
Cmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
             ELSE IF Head(a) < Head(b) THEN -1 ELSE IF Head(a) > Head(b) THEN 1 ELSE Cmp(Tail(a), Tail(b))
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

Init == s = <<>> /\ q = Start /\ cs = <<>> /\ dead = 0 /\ hist = <<>>
        /\ die \in (IF Job = "long" THEN 1..(2 * MaxLen) ELSE {0})
Byte(b) == /\ Len(s) < MaxLen /\ dead <= Extra
           /\ LET p == Read(q, b) IN
              /\ (Job = "long" => ((p = Dead) <=> (Len(s) + 1 = die) \/ q = Dead))
              /\ q' = p /\ s' = Append(s, b) /\ dead' = IF p = Dead THEN dead + 1 ELSE 0
              /\ cs' = IF p[1] = 0 THEN Append(cs, p[4]) ELSE cs
              /\ hist' = <<[k |-> "str", b |-> s', ok |-> p[1] = 0, cs |-> IF p[1] = 0 THEN cs' ELSE <<>>]>>
           /\ UNCHANGED die
Char(c, d) == /\ hist = <<>>
              /\ hist' = <<[k |-> "char", c |-> c, d |-> d, ok |-> Scalar(c), okd |-> Scalar(d),
                           enc |-> IF Scalar(c) THEN Enc(c) ELSE <<>>, cmp |-> IF Scalar(c) /\ Scalar(d) THEN Sgn(c, d) ELSE 0]>>
              /\ UNCHANGED <<s, q, cs, dead, die>>
Strs == UNION {[1..n -> Points] : n \in 0..MaxLen}
Pair(a, b) == /\ hist = <<>>
              /\ LET x == EncAll(a) y == EncAll(b) IN hist' = <<[k |-> "pair", a |-> x, b |-> y, cmp |-> Cmp(x, y)]>>
              /\ UNCHANGED <<s, q, cs, dead, die>>
\* array element i holds i % 2, so that different views can be equal
View(i, n) == [x \in 1..n |-> (i + x) % 2]
Slice(i, n, j, m) == /\ hist = <<>> /\ i + n <= MaxLen /\ j + m <= MaxLen
                     /\ hist' = <<[k |-> "slice", i |-> i, n |-> n, j |-> j, m |-> m, v |-> View(i, n), eq |-> View(i, n) = View(j, m)]>>
                     /\ UNCHANGED <<s, q, cs, dead, die>>
Next == CASE Job \in {"bytes", "long"} -> \E b \in Bytes : Byte(b)
          [] Job = "chars" -> \E c, d \in Points : Char(c, d)
          [] Job = "pairs" -> \E a, b \in Strs : Pair(a, b)
          [] Job = "slices" -> \E i, n, j, m \in 0..MaxLen : Slice(i, n, j, m)
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(hist'))
view == <<s, q, cs, dead, die, hist>>

\* what was decoded encodes back to what was read
RoundTrip == q[1] = 0 => EncAll(cs) = s
DecodedScalars == \A i \in 1..Len(cs) : Scalar(cs[i])
\* an incomplete or invalid string is never accepted, and an invalid one never becomes valid again
DeadForever == [][q = Dead => q' = Dead]_vars
=================================================================================
