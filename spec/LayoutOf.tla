------------------------------ MODULE LayoutOf ------------------------------
(* Where the fields of a struct or union lie: the rules, and what both languages report.

   Recorded is what the real compilers report: Rust from size_of, align_of and offset_of!,
   C++ from sizeof, alignof and the addresses of the fields of an object. *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Recorded  \* sequence of [union, c: BOOLEAN, packed, align: 0 or what is asked for,
                    \*   fields: << [size, align, rs (offset), cc (offset or -1), csize (or -1)] >>, size, al, csize, cal]
VARIABLE k
Init == k \in DOMAIN Recorded
Spec == Init /\ [][UNCHANGED k]_k

R == Recorded[k]
F == R.fields
Fs == DOMAIN F
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Up(x, a) == ((x + a - 1) \div a) * a
Align(f) == IF R.packed = 0 THEN F[f].align ELSE Min(F[f].align, R.packed)
RECURSIVE MaxAlign(_)
MaxAlign(n) == IF n = 0 THEN 1 ELSE Max(MaxAlign(n - 1), Align(n))
Whole == Max(MaxAlign(Len(F)), R.align)

\* ---- the repr(C) rules, which determine the layout
RECURSIVE Offset(_)
End(f) == Offset(f) + F[f].size
Offset(f) == IF R.union \/ f = 1 THEN 0 ELSE Up(End(f - 1), Align(f))
RECURSIVE MaxEnd(_)
MaxEnd(n) == IF n = 0 THEN 0 ELSE Max(MaxEnd(n - 1), End(n))
LikeC == R.c => /\ \A f \in Fs : F[f].rs = Offset(f)
                /\ R.al = Whole
                /\ R.size = Up(MaxEnd(Len(F)), Whole)
\* ---- otherwise Rust chooses, among the layouts that work
Fits == /\ \A f \in Fs : F[f].rs % Align(f) = 0 /\ F[f].rs + F[f].size <= R.size
        /\ R.size % R.al = 0 /\ R.al >= Whole
        /\ ~R.union => \A f, g \in Fs : f # g => F[f].rs + F[f].size <= F[g].rs \/ F[g].rs + F[g].size <= F[f].rs
\* ---- C++ has the layout that Rust chose
Agree == R.csize = R.size /\ R.cal = R.al /\ \A f \in Fs : F[f].cc # -1 => F[f].cc = F[f].rs /\ F[f].csize = F[f].size
=============================================================================
