------------------------------ MODULE MCInputs ------------------------------
(***************************************************************************)
(* Inputs enumerated completely over small scopes: every way to cut a tag,  *)
(* every single-byte damage of a tag, every header over boundary values,    *)
(* every short string.  The laws that the specification itself must obey    *)
(* on them are invariants; the inputs are emitted for the code.             *)
(***************************************************************************)
EXTENDS MCBase

VARIABLE in          \* [kind, b, full]

Mode == IOEnv.MODE

CutTags == << ForeignTag(3, 0, 0, <<>>, << FTit, FPri, FCom(97) >>, 12, FALSE), ForeignTag(4, 0, 0, <<>>, << FApi(112), FTxx >>, 0, FALSE),
              ForeignTag(3, 0, 64, B(<<0, 0, 0, 6, 0, 0, 0, 0, 0, 0>>), << FComr, FTit >>, 0, FALSE),
              ForeignTag(4, 0, 80, B(<<0, 0, 0, 6, 1, 0>>), << FTit >>, 0, TRUE) >>
Cuts == UNION { { [kind |-> "cut", b |-> Take(CutTags[i], n), full |-> CutTags[i]] : n \in 0..BLen(CutTags[i]) } : i \in 1..Len(CutTags) }

DamTags == << ForeignTag(3, 0, 0, <<>>, << FTit, FCom(97) >>, 2, FALSE), ForeignTag(4, 0, 0, <<>>, << FApi(112), FTxx >>, 0, FALSE),
              ForeignTag(3, 0, 64, B(<<0, 0, 0, 6, 0, 0, 0, 0, 0, 0>>), << FPri >>, 0, FALSE) >>
Patch(s, i, x) == CatAll(<< Take(s, i), Rep(x, 1), Drop(s, i + 1) >>)
Values == IF IOEnv.WIDE = "1" THEN {0, 1, 2, 9, 10, 16, 64, 65, 84, 127, 128, 254, 255} ELSE {0, 1, 64, 127, 255}
Damages == UNION { { [kind |-> "damage", b |-> Patch(DamTags[i], n, x), full |-> DamTags[i]]
                     : n \in 3..(BLen(DamTags[i]) - 1), x \in Values } : i \in 1..Len(DamTags) }
\* declared frame sizes around the end of the tag and at the borders of the size field
SizeBytes == { <<a, b, c, d>> : a \in {0, 1, 127, 128, 255}, b \in {0, 255}, c \in {0, 1, 127, 255}, d \in {0, 1, 2, 3, 4, 5, 9, 10, 11, 255} }
SizedTag(ver, id, sb) ==
    LET body == CatAll(<< FromSeq(id), FromSeq(sb), FromSeq(<<0, 0>>), B(<<0, 101, 110, 103, 100, 0, 99, 0, 3, 0, 9>>) >>)
    IN Cat(HeaderBytes(ver, 0, 0, BLen(body)), body)
Sizes == { [kind |-> "size", b |-> SizedTag(v, id, sb), full |-> <<>>] : v \in {3, 4}, id \in {TIT2, COMM, APIC, PRIV}, sb \in SizeBytes }
\* extended header sizes, and tag sizes, that do not fit
ExtTag(ver, eb, n) == Cat(HeaderBytes(ver, 0, 64, n), Cat(FromSeq(eb), Cat(B(<<0, 0, 0, 0, 0, 0>>), FrameBytes(ver, FTit))))
ExtSizes == { [kind |-> "ext", b |-> ExtTag(v, eb, n), full |-> <<>>] : v \in {3, 4}, eb \in { x \in SizeBytes : x[2] = 0 }, n \in {0, 3, 4, 10, 23, 24, 5000} }

\* very short frames as the last bytes of the tag, which are or are not the last bytes of the input
TailTag(ver, pre, id, n, x) ==
    LET fs == Cat(IF pre THEN FrameBytes(ver, FTit) ELSE <<>>, CatAll(<< FromSeq(id), FromSeq(<<0, 0, 0, n>>), FromSeq(<<0, 0>>), Rep(x, n) >>))
    IN Cat(HeaderBytes(ver, 0, 0, BLen(fs)), fs)
Tails == { [kind |-> "size", b |-> Cat(TailTag(v, p, id, n, x), after), full |-> <<>>]
           : v \in {3, 4}, p \in BOOLEAN, id \in {TIT2, COMM, APIC, PRIV}, n \in 0..7, x \in {0, 1, 65, 255}, after \in {<<>>, Rep(255, 2)} }

\* short lists of frames of which some are empty or too short for their kind
UFID == <<85, 70, 73, 68>>
Stubs == << <<TIT2, <<>>>>, <<TIT2, <<3>>>>, <<PRIV, <<>>>>, <<PRIV, <<7>>>>, <<UFID, <<>>>>, <<COMM, <<>>>>, <<COMM, <<0, 101, 110, 103, 0>>>>, <<APIC, <<>>>>, <<TPE1, <<0, 65>>>> >>
StubTag(q) ==
    LET ver == 3 + (FoldLeft(LAMBDA a, x : a + x, 0, q) % 2)
        fs == CatAll([i \in 1..Len(q) |-> FrameBytes(ver, Frame(Stubs[q[i]][1], <<0, i>>, B(Stubs[q[i]][2])))])
    IN Cat(HeaderBytes(ver, 0, 0, BLen(fs)), fs)
Empties == { [kind |-> "size", b |-> StubTag(q), full |-> <<>>] : q \in UNION { [1..n -> 1..Len(Stubs)] : n \in 1..3 } }

HdrIds == { <<73, 68, 51>>, <<105, 68, 51>>, <<73, 100, 51>>, <<73, 68, 50>>, <<0, 0, 0>>, <<255, 68, 51>>, <<73, 255, 51>>, <<73, 68, 0>> }
HdrSizes == { <<0, 0, 0, 0>>, <<0, 0, 0, 127>>, <<0, 0, 1, 0>>, <<0, 0, 127, 127>>, <<0, 1, 0, 0>>, <<0, 127, 127, 127>>, <<1, 0, 0, 0>>, <<127, 127, 127, 127>>, <<1, 2, 3, 4>> }
Hdr(id, v, r, f, sz) == B(id \o <<v, r, f>> \o sz)
\* every value of every byte of a header, one byte at a time (a size byte has seven bits)
HdrEach == { [kind |-> "hdr", b |-> Patch(Hdr(<<73, 68, 51>>, v, 0, 0, <<0, 0, 0, 5>>), n, x), full |-> <<>>]
             : v \in {3, 4}, n \in 0..5, x \in 0..255 }
           \cup { [kind |-> "hdr", b |-> Patch(Hdr(<<73, 68, 51>>, v, 0, 0, <<0, 0, 0, 5>>), n, x), full |-> <<>>]
             : v \in {3, 4}, n \in 6..9, x \in 0..127 }
Headers ==
    HdrEach \cup
    { [kind |-> "hdr", b |-> Hdr(<<73, 68, 51>>, v, r, f, sz), full |-> <<>>] : v \in {3, 4}, r \in {0, 1, 255}, f \in {0, 16, 32, 15, 128, 255, 64, 63}, sz \in HdrSizes }
    \cup { [kind |-> "hdr", b |-> Hdr(id, v, 0, 0, sz), full |-> <<>>]
           : id \in HdrIds, v \in {0, 1, 2, 3, 4, 5, 51, 131, 132, 255}, sz \in {<<0, 0, 0, 0>>, <<0, 0, 0, 5>>} }
    \cup { [kind |-> "hdr", b |-> Cat(Take(Hdr(<<73, 68, 51>>, v, 0, 0, <<0, 0, 0, 0>>), n), x), full |-> <<>>]
           : v \in {3, 4}, n \in 0..10, x \in {<<>>, Rep(0, 1)} }

Alpha == {1, 65, 233, 254, 255}
Strs(n) == UNION { [1..k -> Alpha] : k \in 0..n }
Units == { <<65, 0>>, <<0, 65>>, <<1, 0>>, <<0, 1>>, <<255, 254>>, <<254, 255>>, <<65, 66>> }
UniStrs(n) == UNION { [1..k -> Units] : k \in 0..n }
Flat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
StrMax == IF IOEnv.WIDE = "1" THEN 4 ELSE 3
Texts == { [kind |-> "text", b |-> B(s), full |-> <<>>] : s \in Strs(StrMax) }
         \cup { [kind |-> "text", b |-> B(bom \o Flat(u)), full |-> <<>>] : bom \in {<<255, 254>>, <<254, 255>>}, u \in UniStrs(StrMax) }
\* a text is a proper string: a byte order mark means 16-bit units
Proper(b) == ~HasBom(b) \/ BLen(b) % 2 = 0

Inputs == CASE Mode = "cut" -> Cuts
            [] Mode = "compat" -> Cuts \cup Damages \cup Tails \cup Empties \cup { x \in Headers : BLen(x.b) < 10 \/ At(x.b, 5) \in {0, 16, 32, 64, 80, 255} }
            [] Mode = "damage" -> Damages \cup Sizes \cup ExtSizes \cup Tails \cup Empties
            [] Mode = "header" -> Headers
            [] Mode = "text" -> { x \in Texts : Proper(x.b) }

CGetN(c, n) == [op |-> "c_get", c |-> c, name |-> n]
CallsFor(x) ==
    CASE Mode = "compat" -> << [op |-> "mk", f |-> 0, b |-> x.b], [op |-> "read", h |-> 1, f |-> 0], [op |-> "c_load", c |-> 0, f |-> 0], [op |-> "readb", h |-> 0, b |-> x.b],
                               [op |-> "c_loadb", c |-> 1, b |-> x.b], CGetN(0, "title"), CGetN(1, "comment"), CGetN(0, "cover") >>
      [] x.kind = "text" -> << [op |-> "tou", b |-> x.b], [op |-> "slen", b |-> x.b] >>
      [] x.kind = "hdr"  -> << [op |-> "mk", f |-> 0, b |-> x.b], [op |-> "hdr", f |-> 0] >>
                            \o (IF BLen(x.b) >= 10 THEN << [op |-> "hdrb", b |-> x.b] >> ELSE <<>>)
                            \o << [op |-> "read", h |-> 0, f |-> 0], [op |-> "readfb", h |-> 1, f |-> 0] >>
      [] OTHER -> << [op |-> "mk", f |-> 0, b |-> x.b], [op |-> "read", h |-> 0, f |-> 0], [op |-> "readb", h |-> 1, b |-> x.b] >>

Next == /\ hist = <<>>
        /\ \E x \in Inputs : in' = x /\ hist' = CallsFor(x) /\ Emit(hist')
        /\ UNCHANGED vars
IInit == MCInit /\ in = [kind |-> "none", b |-> <<>>, full |-> <<>>]
Spec == IInit /\ [][Next]_<<vars, hist, in>>
IView == in

CanonicalBytes == Canonical(in.b)
\* C07: cutting a conforming tag off keeps the frames before the cut, and nothing else
CutKeepsPrefix ==
    in.kind = "cut" =>
        LET p == TagOf(in.b) q == TagOf(in.full) IN
        /\ p.ok = (BLen(in.b) >= HeaderLen)
        /\ p.ok => /\ Len(p.fr) <= Len(q.fr) /\ p.fr = SubSeq(q.fr, 1, Len(p.fr))
                   /\ (Conforming(in.b) => Truthful(in.b, p.ver, p.fr))
                   /\ (Conforming(in.b) /\ Len(p.fr) < Len(q.fr) =>
                        HeaderLen + (IF HasExt(q) THEN (IF q.ver = 3 THEN 4 + q.ext ELSE q.ext) ELSE 0)
                          + FramesLen(SubSeq(q.fr, 1, Len(p.fr) + 1)) > BLen(in.b))
\* what the parser reports on damaged bytes lies in them
ReportsWhatIsThere ==
    in.kind \in {"damage", "size", "ext"} =>
        LET p == TagOf(in.b) IN p.ok => Truthful(in.b, p.ver, p.fr)
\* C08
HeaderLaw ==
    in.kind = "hdr" =>
        LET h == HeaderOf(in.b) IN
        h.ok = (BLen(in.b) >= 10 /\ Expand(Take(in.b, 3)) = <<73, 68, 51>> /\ At(in.b, 3) \in {3, 4})
        /\ (h.ok /\ h.safe => Sync32(h.tsz) = Expand(Slice(in.b, 6, 4)))
\* C14
TextLaws ==
    in.kind = "text" =>
        LET s == in.b u == ToUnicode(s) IN
        /\ HasBom(u) /\ ToUnicode(u) = u
        /\ (~HasBom(s) => BLen(u) = 2 + 2 * BLen(s) /\ \A i \in 0..(BLen(s) - 1) : At(u, 2 + 2 * i) = At(s, i) /\ At(u, 3 + 2 * i) = 0)
        /\ BLen(StrBytes(s)) = BLen(s) + (IF HasBom(s) THEN 2 ELSE 1)
=============================================================================
