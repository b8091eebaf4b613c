------------------------------- MODULE Const -------------------------------
(* Constants (E07): a crate grows by one constant at a time, in a place, of a type and
   with a value.  A value is what it is in memory, a sequence of bytes (little endian),
   or the sequence of code points of a string.  Expected of C++: the type, whether the
   constant must be there, and the bytes. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Types, Places, Low, Next8, Fill, Top,       \* bytes integers are made of
          Exps32, Mants32, Exps64, Nibbles, Fill64, Low64,
          Chars, MaxChars, MaxLen, Pick

VARIABLES crate, hist
vars == <<crate, hist>>

Some(S) == IF Pick THEN {RandomElement(S)} ELSE S
Rep(b, n) == [i \in 1..n |-> b]
Width == [bool |-> 1, i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8, isize |-> 8, usize |-> 8, i128 |-> 16, u128 |-> 16, f32 |-> 4, f64 |-> 8, char |-> 4]
Cpp == [bool |-> "bool", i8 |-> "std::int8_t", u8 |-> "std::uint8_t", i16 |-> "std::int16_t", u16 |-> "std::uint16_t", i32 |-> "std::int32_t", u32 |-> "std::uint32_t",
        i64 |-> "std::int64_t", u64 |-> "std::uint64_t", isize |-> "std::intptr_t", usize |-> "std::uintptr_t", f32 |-> "float", f64 |-> "double", str |-> "rs_std::StrRef",
        i128 |-> "__int128", u128 |-> "unsigned __int128", char |-> "rs_std::char_"]

\* ------------------------------------------------------------ values
Whole(w) == IF w = 1 THEN {<<a>> : a \in Low \cup Next8 \cup Top}
            ELSE IF w = 2 THEN {<<a, t>> : a \in Low, t \in Next8 \cup Top}
            ELSE {<<a, b>> \o Rep(f, w - 3) \o <<t>> : a \in Low, b \in Next8, f \in Fill, t \in Top}
Single(s, e, m) == <<(m % 256), (m \div 256) % 256, ((e % 2) * 128) + (m \div 65536), (s * 128) + (e \div 2)>>
Double(s, e, n, f, l) == <<l>> \o Rep(f, 5) \o <<((e % 16) * 16) + n, (s * 128) + (e \div 16)>>
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE Strings(n - 1) \cup {Append(s, c) : s \in Strings(n - 1), c \in Chars}
Scalars == {c \in Chars : c < 55296 \/ c > 57343}
Values(t) ==
  CASE t = "bool" -> {<<0>>, <<1>>}
    [] t = "f32" -> {Single(s, e, m) : s \in {0, 1}, e \in Exps32, m \in Mants32}
    [] t = "f64" -> {Double(s, e, n, f, l) : s \in {0, 1}, e \in Exps64, n \in Nibbles, f \in Fill64, l \in Low64}
    [] t = "str" -> Strings(MaxChars)
    [] t = "char" -> {<<(c % 256), ((c \div 256) % 256), c \div 65536, 0>> : c \in Scalars}
    [] OTHER -> Whole(Width[t])
\* One of them, when there are too many to list.
AnyInt(w) == IF w = 1 THEN <<RandomElement(Low)>> ELSE IF w = 2 THEN <<RandomElement(Low), RandomElement(Top)>> ELSE <<RandomElement(Low), RandomElement(Next8)>> \o [i \in 1..w - 3 |-> RandomElement(Fill)] \o <<RandomElement(Top)>>
AnyOf(t) ==
  CASE t \in {"bool", "str", "char"} -> RandomElement(Values(t))
    [] t = "f32" -> Single(RandomElement({0, 1}), RandomElement(Exps32), (RandomElement(0..127) * 65536) + RandomElement(0..65535))
    [] t = "f64" -> <<RandomElement(Low64)>> \o [i \in 1..5 |-> RandomElement(Fill64)] \o <<RandomElement(0..255), RandomElement(0..126) + (128 * RandomElement({0, 1}))>>
    [] OTHER -> AnyInt(Width[t])
Finite(t, v) == CASE t = "f32" -> ((v[4] % 128) * 2) + v[3] \div 128 # 255
                  [] t = "f64" -> ((v[8] % 128) * 16) + v[7] \div 16 # 2047
                  [] OTHER -> TRUE
\* Constants of the other kinds may be left out.
Promised(t, v) == t \notin {"char", "i128", "u128"} /\ Finite(t, v)

\* UTF-8
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN <<>> ELSE Utf8(s[1]) \o Bytes(Tail(s))
Memory(t, v) == IF t = "str" THEN Bytes(v) ELSE v

\* ------------------------------------------------------------ a crate
Init == crate = <<>> /\ hist = <<>>
Declare(p, t, v) ==
  /\ crate' = Append(crate, <<t, v>>)
  /\ hist' = Append(hist, <<<<p, t, v>>, [cpp |-> Cpp[t], must |-> Promised(t, v), mem |-> Memory(t, v)]>>)
\* Enumerators of a C++ enumeration are integers.
Kinds == {k \in Places \X Types : k[1] \in {"plain enumerator", "enumerator"} => k[2] \notin {"f32", "f64", "str", "char", "i128", "u128"}}
Next == Len(hist) < MaxLen /\ \E k \in Some(Kinds) : \E v \in IF Pick THEN {AnyOf(k[2])} ELSE Values(k[2]) : Declare(k[1], k[2], v)
Spec == Init /\ [][Next]_vars

\* A value takes as many bytes as its type has; different values are different in memory.
Sized == \A i \in DOMAIN crate : crate[i][1] # "str" => Len(crate[i][2]) = Width[crate[i][1]]
OneToOne == \A i, j \in DOMAIN crate : (crate[i][1] = crate[j][1] /\ Memory(crate[i][1], crate[i][2]) = Memory(crate[j][1], crate[j][2])) => crate[i] = crate[j]
View == <<crate, Len(hist)>>
Emit == hist' = <<>> \/ PrintT("@@" \o ToJson(hist'))
EmitLast == Len(hist') < MaxLen \/ PrintT("@@" \o ToJson(hist'))
=============================================================================
