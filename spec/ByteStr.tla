------------------------------- MODULE ByteStr -------------------------------
(***************************************************************************)
(* Byte strings in canonical run-length form: a sequence of <<byte, count>> *)
(* pairs, count >= 1, neighbouring runs of different bytes.  Canonical      *)
(* strings are equal iff they denote the same bytes, and a 20 MB picture    *)
(* made of a few runs costs as little as a short text.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL MinI(a, b) == IF a < b THEN a ELSE b

Rep(b, n) == IF n <= 0 THEN <<>> ELSE << <<b, n>> >>

BLen(s) == FoldLeft(LAMBDA acc, r : acc + r[2], 0, s)

Cat(s, t) ==
    IF s = <<>> THEN t
    ELSE IF t = <<>> THEN s
    ELSE LET a == s[Len(s)] b == t[1] IN
         IF a[1] = b[1]
         THEN SubSeq(s, 1, Len(s) - 1) \o << <<a[1], a[2] + b[2]>> >> \o Tail(t)
         ELSE s \o t

CatAll(ss) == FoldLeft(Cat, <<>>, ss)

\* from a plain sequence of bytes
FromSeq(q) == FoldLeft(LAMBDA acc, b : Cat(acc, << <<b, 1>> >>), <<>>, q)

\* to a plain sequence of bytes (short strings only)
Expand(s) == FoldLeft(LAMBDA acc, r : acc \o [i \in 1..r[2] |-> r[1]], <<>>, s)

\* index of the run that contains byte offset n (0-based), and the offset where that run starts; the first runs are
\* tried first so that walking through a long string stays cheap
LOCAL Scan(a0, s, n) ==
    FoldLeft(LAMBDA a, r : IF a.hit THEN a
                           ELSE IF a.off + r[2] > n THEN [a EXCEPT !.hit = TRUE]
                           ELSE [hit |-> FALSE, idx |-> a.idx + 1, off |-> a.off + r[2]],
             a0, s)
LOCAL Locate(s, n) ==
    LET a0 == [hit |-> FALSE, idx |-> 1, off |-> 0] IN
    IF Len(s) <= 16 THEN Scan(a0, s, n)
    ELSE LET a1 == Scan(a0, SubSeq(s, 1, 16), n) IN
         IF a1.hit THEN a1
         ELSE IF Len(s) <= 128 THEN Scan(a1, SubSeq(s, 17, Len(s)), n)
         ELSE LET a2 == Scan(a1, SubSeq(s, 17, 128), n) IN
              IF a2.hit THEN a2 ELSE Scan(a2, SubSeq(s, 129, Len(s)), n)

Take(s, n) ==
    IF n <= 0 THEN <<>>
    ELSE LET l == Locate(s, n - 1) IN
         IF ~l.hit THEN s
         ELSE SubSeq(s, 1, l.idx - 1) \o << <<s[l.idx][1], n - l.off>> >>

Drop(s, n) ==
    IF n <= 0 THEN s
    ELSE LET l == Locate(s, n) IN
         IF ~l.hit THEN <<>>
         ELSE << <<s[l.idx][1], s[l.idx][2] - (n - l.off)>> >> \o SubSeq(s, l.idx + 1, Len(s))

Slice(s, from, n) == Take(Drop(s, from), n)

At(s, i) == s[Locate(s, i).idx][1]           \* 0-based, i < BLen(s)

\* offset of the first zero byte, -1 if there is none
FindZero(s) ==
    LET r == FoldLeft(LAMBDA a, x : IF a.hit THEN a
                                    ELSE IF x[1] = 0 THEN [a EXCEPT !.hit = TRUE]
                                    ELSE [a EXCEPT !.off = @ + x[2]],
                      [hit |-> FALSE, off |-> 0], s)
    IN IF r.hit THEN r.off ELSE -1

\* offset of the first zero 16-bit unit (even offset), -1 if there is none
FindZero2(s) ==
    LET r == FoldLeft(LAMBDA a, x : IF a.hit THEN a
                                    ELSE LET c == IF a.off % 2 = 0 THEN a.off ELSE a.off + 1 IN
                                         IF x[1] = 0 /\ c + 2 <= a.off + x[2]
                                         THEN [hit |-> TRUE, off |-> c]
                                         ELSE [a EXCEPT !.off = @ + x[2]],
                      [hit |-> FALSE, off |-> 0], s)
    IN IF r.hit THEN r.off ELSE -1

AllZero(s) == s = <<>> \/ (Len(s) = 1 /\ s[1][1] = 0)

Canonical(s) == /\ \A i \in 1..Len(s) : s[i][2] >= 1 /\ s[i][1] \in 0..255
                /\ \A i \in 1..(Len(s) - 1) : s[i][1] # s[i + 1][1]
=============================================================================
