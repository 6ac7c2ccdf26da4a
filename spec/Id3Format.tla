------------------------------ MODULE Id3Format ------------------------------
(***************************************************************************)
(* The ID3v2.3 / ID3v2.4 format, independent of the implementation: an      *)
(* abstract frame is its id, its two flag bytes and its content bytes; the  *)
(* fields of the frames the library interprets are views of the content.    *)
(***************************************************************************)
EXTENDS ByteStr, Sizes, TLC

HeaderLen      == 10
FrameHeaderLen == 10
MinPadding     == 2048           \* padding a written tag has at least

Zero2 == <<0, 0>>

----------------------------------------------------------------------------
\* flag bits (the integers are in Sizes)

Bit(x, k) == (x \div (2 ^ k)) % 2 = 1
ClearBit(x, k) == IF Bit(x, k) THEN x - 2 ^ k ELSE x

----------------------------------------------------------------------------
\* strings as the API takes them: content without terminator; a byte order mark announces 16-bit text

HasBom(s) ==
    BLen(s) >= 2 /\ LET h == Expand(Take(s, 2)) IN h = <<255, 254>> \/ h = <<254, 255>>

Term(s)   == IF HasBom(s) THEN Rep(0, 2) ELSE Rep(0, 1)
StrBytes(s) == Cat(s, Term(s))                       \* as stored, with terminator
EncOf(s)  == IF HasBom(s) THEN 1 ELSE 0

Bom       == << <<255, 1>>, <<254, 1>> >>
\* every Latin-1 character becomes one little-endian 16-bit unit
Widen(s)  == LET P == Expand(s) IN
             IF \E i \in 1..Len(s) : s[i][1] = 0 THEN CatAll([i \in 1..Len(P) |-> FromSeq(<<P[i], 0>>)])
             ELSE [i \in 1..(2 * Len(P)) |-> << IF i % 2 = 1 THEN P[(i + 1) \div 2] ELSE 0, 1 >>]
ToUnicode(s) == IF HasBom(s) THEN s ELSE Cat(Bom, Widen(s))

Wide(enc) == enc \in {1, 2}
TermLen(enc) == IF Wide(enc) THEN 2 ELSE 1
FindTerm(enc, s) == IF Wide(enc) THEN FindZero2(s) ELSE FindZero(s)

----------------------------------------------------------------------------
\* frames

Frame(id, fl, body) == [id |-> id, fl |-> fl, body |-> body]

COMM == <<67, 79, 77, 77>>
APIC == <<65, 80, 73, 67>>

Kind(id) == IF id[1] = 84 THEN "text"
            ELSE IF id = COMM THEN "comm"
            ELSE IF id = APIC THEN "apic"
            ELSE "raw"

\* content built by the setters
TextBody(text) == Cat(Rep(EncOf(text), 1), StrBytes(text))

\* a comment frame declares one encoding for both strings
CommBody(lang, desc, comment) ==
    LET enc == IF HasBom(desc) \/ HasBom(comment) THEN 1 ELSE 0
        D == IF enc = 1 THEN ToUnicode(desc) ELSE desc
        C == IF enc = 1 THEN ToUnicode(comment) ELSE comment
    IN CatAll(<< Rep(enc, 1), lang, StrBytes(D), StrBytes(C) >>)

ApicBody(mime, ptype, desc, pic) ==
    CatAll(<< Rep(EncOf(desc), 1), Cat(mime, Rep(0, 1)), Rep(ptype, 1), StrBytes(desc), pic >>)

\* the content as the sequence of its fields; << >> when the content is not valid for its kind
Fields(id, body) ==
    LET n == BLen(body) IN
    CASE Kind(id) = "raw"  -> << body >>
      [] Kind(id) = "text" ->
            IF n < 1 THEN << >> ELSE << Take(body, 1), Drop(body, 1) >>
      [] Kind(id) = "comm" ->
            IF n < 4 THEN << >>
            ELSE LET enc == At(body, 0)
                     R == Drop(body, 4)
                     t == FindTerm(enc, R)
                 IN IF t < 0 THEN << >>
                    ELSE << Take(body, 1), Slice(body, 1, 3), Take(R, t + TermLen(enc)), Drop(R, t + TermLen(enc)) >>
      [] Kind(id) = "apic" ->
            IF n < 1 THEN << >>
            ELSE LET enc == At(body, 0)
                     R == Drop(body, 1)
                     m == FindZero(R)
                 IN IF m < 0 \/ BLen(R) < m + 2 THEN << >>
                    ELSE LET D == Drop(R, m + 2)
                             t == FindTerm(enc, D)
                         IN IF t < 0 THEN << >>
                            ELSE << Take(body, 1), Take(R, m + 1), Slice(R, m + 1, 1),
                                    Take(D, t + TermLen(enc)), Drop(D, t + TermLen(enc)) >>

ValidBody(id, body) == Fields(id, body) # << >>

\* length of a text or comment string as the caller's string functions see it; -1: not measurable with them
StrSeen(enc, s) ==
    IF Wide(enc)
    THEN IF ~HasBom(s) THEN -1
         ELSE FindZero2(Cat(s, Rep(0, 3)))          \* zero bytes follow in memory
    ELSE FindZero(Cat(s, Rep(0, 1)))

FrameBytes(ver, f) ==
    LET n == BLen(f.body) IN
    CatAll(<< FromSeq(f.id), FromSeq(IF ver = 4 THEN Sync32(n) ELSE BE32(n)), FromSeq(f.fl), f.body >>)

FramesBytes(ver, fs) == CatAll([i \in 1..Len(fs) |-> FrameBytes(ver, fs[i])])

FramesLen(fs) == FoldLeft(LAMBDA a, f : a + FrameHeaderLen + BLen(f.body), 0, fs)

----------------------------------------------------------------------------
\* tag header

HeaderBytes(ver, rev, flags, size) ==
    FromSeq(<<73, 68, 51, ver, rev, flags>> \o Sync32(size))

\* what a reader must find in front of the given bytes
HeaderOf(bytes) ==
    IF BLen(bytes) < HeaderLen THEN [ok |-> FALSE]
    ELSE LET h == Expand(Take(bytes, HeaderLen)) IN
         IF SubSeq(h, 1, 3) # <<73, 68, 51>> \/ h[4] \notin {3, 4} THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, ver |-> h[4], rev |-> h[5], hfl |-> h[6],
               tsz |-> DecSync(SubSeq(h, 7, 10)), safe |-> SyncSafe(SubSeq(h, 7, 10))]

HasExt(h)    == Bit(h.hfl, 6)
HasFooter(h) == h.ver = 4 /\ Bit(h.hfl, 4)

\* bytes the tag occupies at the start of a file
RegionLen(h) == HeaderLen + h.tsz + (IF HasFooter(h) THEN 10 ELSE 0)

\* everything after the tag: the audio
AudioOf(bytes) ==
    LET h == HeaderOf(bytes) IN IF h.ok THEN Drop(bytes, RegionLen(h)) ELSE bytes

----------------------------------------------------------------------------
\* parsing

IdChar(b) == b \in 65..90 \/ b \in 48..57

(* Walks the frames in s (up to the end of the tag or of the data).  Result: frames, `conf` (everything seen *)
(* obeys the format) and `cut` (stopped at a frame that does not fit).  A fold, one frame per step: neighbouring *)
(* frames never lie in one run (sizes below 2^28 start with a byte that no frame id has), except those of more *)
(* than 2^21 bytes, so Len(s) + 130 steps reach the end.                                                      *)
WalkStep(a, ver) ==
    IF a.left < FrameHeaderLen THEN [a EXCEPT !.conf = @ /\ AllZero(a.s), !.done = TRUE]
    ELSE LET h == Expand(Take(a.s, 10))
             id == SubSeq(h, 1, 4)
             sb == SubSeq(h, 5, 8)
             size == IF ver = 4 THEN DecSync(sb) ELSE DecBE(sb)
         IN IF id = <<0, 0, 0, 0>> THEN [a EXCEPT !.conf = @ /\ AllZero(a.s), !.done = TRUE]
            ELSE LET okh == (\A i \in 1..4 : IdChar(id[i])) /\ size >= 1 /\ (ver = 4 => SyncSafe(sb)) IN
                 IF size > a.left - 10 THEN [a EXCEPT !.conf = @ /\ okh, !.cut = TRUE, !.done = TRUE]
                 ELSE LET R == Drop(a.s, 10)
                          B == Take(R, size)
                          valid == ValidBody(id, B)
                      IN [a EXCEPT !.conf = @ /\ okh /\ valid, !.s = Drop(R, size), !.left = @ - 10 - size,
                                   !.fr = IF valid THEN Append(@, Frame(id, SubSeq(h, 9, 10), B)) ELSE @]
Walk(s, left, ver) ==
    FoldLeft(LAMBDA a, i : IF a.done THEN a ELSE WalkStep(a, ver),
             [s |-> s, left |-> left, fr |-> <<>>, conf |-> TRUE, cut |-> FALSE, done |-> FALSE],
             [i \in 1..(Len(s) + 130) |-> i])

(* The tag at the start of the given bytes.  `conf`: a conforming tag, complete in the bytes given.           *)
(* `cut`: conforming as far as it goes, but the bytes end inside it.                                          *)
TagOf(bytes) ==
    LET h == HeaderOf(bytes) IN
    IF ~h.ok THEN [ok |-> FALSE, conf |-> TRUE, cut |-> FALSE]
    ELSE LET avail == BLen(bytes) - HeaderLen
             inside == IF avail < h.tsz THEN avail ELSE h.tsz
             region == Slice(bytes, HeaderLen, inside)
             extOk == ~HasExt(h) \/ inside >= 4
             eb == IF HasExt(h) /\ extOk THEN Expand(Take(region, 4)) ELSE <<0, 0, 0, 0>>
             ev == IF HasExt(h) /\ extOk THEN DecSync(eb) ELSE 0
             skip == IF ~HasExt(h) THEN 0 ELSE IF h.ver = 3 THEN 4 + ev ELSE ev
             extConf == ~HasExt(h) \/ (extOk /\ skip <= inside
                                       /\ (IF h.ver = 3 THEN ev \in {6, 10} /\ SyncSafe(eb) ELSE ev >= 6 /\ SyncSafe(eb)))
             w == IF extConf THEN Walk(Drop(region, skip), inside - skip, h.ver)
                  ELSE [fr |-> <<>>, conf |-> FALSE, cut |-> FALSE]
         IN [ok |-> TRUE, ver |-> h.ver, rev |-> h.rev, hfl |-> h.hfl, tsz |-> h.tsz, ext |-> ev, fr |-> w.fr,
             conf |-> h.safe /\ extConf /\ w.conf /\ ~w.cut /\ avail >= h.tsz,
             cut |-> h.safe /\ extConf /\ w.conf /\ avail < h.tsz]

----------------------------------------------------------------------------
(* Well-formedness of a written file: exactly one tag, then the audio.       *)
WellFormedTag(bytes, audio) ==
    LET h == HeaderOf(bytes)
        p == TagOf(bytes)
    IN /\ h.ok /\ h.safe
       /\ ~HasExt(h) /\ ~HasFooter(h)
       /\ HeaderLen + h.tsz + BLen(audio) = BLen(bytes)
       /\ p.conf
       /\ h.tsz - FramesLen(p.fr) >= MinPadding
       /\ Drop(bytes, HeaderLen + h.tsz) = audio

\* the strings of a frame are in the encoding it declares and are terminated where the format requires it
EncodingOk(f) ==
    LET v == Fields(f.id, f.body) IN
    /\ v # << >>
    /\ CASE Kind(f.id) = "text" -> LET e == At(v[1], 0) IN (e = 1) = HasBom(v[2])
         [] Kind(f.id) = "comm" -> LET e == At(v[1], 0) IN (e = 1) = HasBom(v[3]) /\ (e = 1) = HasBom(v[4])
         [] Kind(f.id) = "apic" -> LET e == At(v[1], 0) IN (e = 1) = HasBom(v[4])
         [] OTHER -> TRUE

(* Truthfulness: the frames lie in the bytes, in order, headers included (declared size = content size).     *)
RECURSIVE TruthfulFrom(_, _, _, _)
TruthfulFrom(P, pos, ver, fs) ==
    IF fs = <<>> THEN TRUE
    ELSE LET f == Head(fs)
             n == BLen(f.body)
             B == Expand(f.body)
             hit(o) == /\ o + 10 + n <= Len(P)
                       /\ SubSeq(P, o + 1, o + 4) = f.id
                       /\ SubSeq(P, o + 9, o + 10) = f.fl
                       /\ SubSeq(P, o + 11, o + 10 + n) = B
             cands == {o \in pos..(Len(P) - 10 - n) : hit(o)}
         IN cands # {} /\ LET o == CHOOSE x \in cands : \A y \in cands : x <= y
                          IN TruthfulFrom(P, o + 10 + n, ver, Tail(fs))
Truthful(bytes, ver, fs) == TruthfulFrom(Expand(bytes), HeaderLen, ver, fs)
=============================================================================
