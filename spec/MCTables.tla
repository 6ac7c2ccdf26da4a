------------------------------ MODULE MCTables ------------------------------
(***************************************************************************)
(* Behaviours taken from complete tables: every byte value in every field,  *)
(* every named function on every id and every id one character away, every  *)
(* short list of frames under every edit, every length around the borders   *)
(* of the size fields.  A row of a table is a sequence of calls; the laws   *)
(* of Id3Lib are checked at every step of every row.                        *)
(***************************************************************************)
EXTENDS MCBase

VARIABLE row          \* the calls of this row; <<>> before it is chosen

Mode == IOEnv.MODE
IsWide == IOEnv.WIDE = "1"
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
Mine(n) == n % Parts = Part

Names == << "artist", "album", "title", "track", "album_artist", "genre", "year", "disc_number", "composer", "comment", "cover" >>
NN == Len(Names)

Mk(f, b) == [op |-> "mk", f |-> f, b |-> b]
Rd(h, f) == [op |-> "read", h |-> h, f |-> f]
Wr(f, h) == [op |-> "write", f |-> f, h |-> h]
Get(h, n) == [op |-> "getn", h |-> h, name |-> n]
GetId(h, id) == [op |-> "get", h |-> h, id |-> id]
Gets(h, id) == [op |-> "gets", h |-> h, id |-> id]
CGet(c, n) == [op |-> "c_get", c |-> c, name |-> n]
DelName(h, n) == [op |-> "deln", h |-> h, name |-> n]
SetName(h, n, t) ==
    CASE n = "comment" -> [op |-> "set_comm", h |-> h, lang |-> English, comm |-> t]
      [] n = "cover" -> [op |-> "set_cover", h |-> h, mime |-> Png, pic |-> t]
      [] OTHER -> [op |-> "setn", h |-> h, name |-> n, text |-> t]
CSetName(c, n, t) ==
    IF n = "cover" THEN [op |-> "c_coverb", c |-> c, mime |-> Png, pic |-> t] ELSE [op |-> "c_set", c |-> c, name |-> n, text |-> t]

----------------------------------------------------------------------------
(* read, keep: every byte value, first and last in every field of every kind of frame, in every encoding.    *)

BothEnds(v) == <<v, 97, v>>
\* a 16-bit unit with the value in its low or its high half; the other half keeps the unit from being zero
Low(v)  == <<v, 1>>
High(v) == <<1, v>>
LeBom == <<255, 254>>
BeBom == <<254, 255>>
Str8(v) == IF v = 0 THEN <<>> ELSE BothEnds(v)
TermTo(n) == [i \in 1..n |-> 0]

ByteFrames(v) ==
    << Frame(NameId.title, <<v, 0>>, B(<<0>> \o BothEnds(v))),
       Frame(NameId.artist, <<0, v>>, B(<<1>> \o LeBom \o Low(v) \o High(v) \o Low(v))),
       Frame(NameId.album, <<0, 0>>, B(<<1>> \o BeBom \o High(v) \o Low(v) \o <<0, 0>>)),
       Frame(NameId.genre, <<0, 0>>, B(<<2>> \o High(v) \o Low(v))),
       Frame(TXXX, <<255 - v, v>>, B(<<3>> \o BothEnds(v) \o <<0>> \o BothEnds(v))),
       Frame(COMM, <<0, 0>>, B(<<0, v, 110, v>> \o Str8(v) \o <<0>> \o BothEnds(v))),
       Frame(APIC, <<0, 0>>, B(<<0>> \o Str8(v) \o <<0, v>> \o Str8(v) \o <<0>> \o <<v, 0, v>>)),
       Frame(PRIV, <<v, v>>, B(<<v, 0, v>>)),
       Frame(COMM, <<v, 0>>, B(<<1, v, v, 0>> \o LeBom \o Low(v) \o High(v) \o <<0, 0>> \o LeBom \o High(v) \o Low(v))),
       Frame(APIC, <<0, v>>, B(<<1, 105, v, 0, 255 - v>> \o BeBom \o Low(v) \o High(v) \o <<0, 0>> \o <<v>>)),
       Frame(<<90, 48, 57, 88>>, <<0, 0>>, B(<<v>>)) >>
\* in the second picture a zero would end the MIME type early
ReadFrames(v) == IF v = 0 THEN SubSeq(ByteFrames(v), 1, 9) \o << ByteFrames(v)[11] >> ELSE ByteFrames(v)
ByteTag(ver, v) == ForeignTag(ver, 0, 0, <<>>, ReadFrames(v), v % 12, FALSE)

ByteKeys == { <<ver, v>> \in {3, 4} \X (0..255) : Mine(v) /\ (IsWide \/ ver = 3 + ((v + (v \div 16)) % 2)) }
ReadRow(ver, v) ==
    << Mk(0, Cat(ByteTag(ver, v), B(<<v>>))), Rd(0, 0), Get(0, "title"), Get(0, "artist"), Get(0, "comment"), Get(0, "cover"),
       [op |-> "c_load", c |-> 0, f |-> 0], CGet(0, "title"), CGet(0, "artist"), CGet(0, "genre"), CGet(0, "comment"), CGet(0, "cover"),
       Wr(0, 0), Rd(1, 0), [op |-> "readb", h |-> 2, b |-> ByteTag(ver, v)] >>
\* one frame goes, one is replaced, one is added: all others are still the same in the file
KeepRow(ver, v) ==
    LET n == Names[(v % NN) + 1] m == Names[((v \div NN) % NN) + 1] IN
    << Mk(0, Cat(ByteTag(ver, v), B(<<v, 255, v>>))), Rd(0, 0), DelName(0, n), SetName(0, m, B(<<118>>)),
       [op |-> "add_commf", h |-> 0, fl |-> <<v, v>>, lang |-> B(<<v, v, v>>), desc |-> Nothing, comm |-> B(<<67>>)],
       Wr(0, 0), Rd(1, 0), [op |-> "del", f |-> 0] >>

----------------------------------------------------------------------------
(* set: every byte value in every argument of every setter.                                                  *)

Arg8(v) == B(IF v = 0 THEN <<>> ELSE <<v, 97, v>>)
Arg16(v) == B((IF v % 2 = 0 THEN LeBom ELSE BeBom) \o Low(v) \o High(v) \o Low(v))
SetRow(ver, v) ==
    << Mk(0, IF ver = 4 THEN Cat(Base4p, Audio) ELSE Audio), (IF ver = 4 THEN Rd(0, 0) ELSE [op |-> "newe", h |-> 0]),
       SetName(0, "title", Arg8(v)), SetName(0, "artist", Arg16(v)),
       [op |-> "set_text", h |-> 0, id |-> TXXX, fl |-> <<v, 255 - v>>, text |-> Arg8(v)],
       [op |-> "set_comm", h |-> 0, lang |-> B(<<v, v, v>>), comm |-> Arg8(v)],
       [op |-> "add_commf", h |-> 0, fl |-> <<v, v>>, lang |-> B(<<v, 110, v>>), desc |-> Arg8(v), comm |-> Arg16(v)],
       [op |-> "add_commf", h |-> 0, fl |-> <<0, v>>, lang |-> B(<<97, v, 99>>), desc |-> Arg16(v), comm |-> Arg8(v)],
       [op |-> "set_cover", h |-> 0, mime |-> Arg8(v), pic |-> B(<<v, 0, v>>)],
       [op |-> "add_apicf", h |-> 0, fl |-> <<v, 0>>, mime |-> Arg8(v), desc |-> Arg8(v), pt |-> v, pic |-> B(<<v>>)],
       [op |-> "add_apicf", h |-> 0, fl |-> <<0, v>>, mime |-> Arg8(255 - v), desc |-> Arg16(v), pt |-> 255 - v, pic |-> B(<<0, v>>)],
       Get(0, "title"), Get(0, "comment"), Get(0, "cover"), Wr(0, 0), Rd(1, 0), Wr(0, 1) >>
CSetRow(ver, v) ==
    << Mk(0, IF ver = 4 THEN Cat(Base4, Audio) ELSE Audio), (IF ver = 4 THEN [op |-> "c_load", c |-> 0, f |-> 0] ELSE [op |-> "c_new", c |-> 0]),
       CSetName(0, "title", Arg8(v)), CGet(0, "title"), CSetName(0, "artist", Arg16(v)), CGet(0, "artist"),
       CSetName(0, "comment", Arg8(v)), CGet(0, "comment"), CSetName(0, "comment", Arg16(v)), CGet(0, "comment"),
       [op |-> "c_coverb", c |-> 0, mime |-> Arg8(v), pic |-> B(<<v, 0, v>>)], CGet(0, "cover"),
       [op |-> "c_write", f |-> 0, c |-> 0], [op |-> "c_load", c |-> 1, f |-> 0], CGet(1, "title"), CGet(1, "comment"), CGet(1, "cover"), Rd(0, 0) >>

----------------------------------------------------------------------------
(* names: every named function on a tag that has all of them, in every rotation.                             *)

AnyBody == B(<<0, 101, 110, 103, 0, 99, 0>>)          \* valid for every kind of frame
AllFrames(k) == [i \in 1..(NN + 2) |->
    LET j == ((i + k) % (NN + 2)) + 1 IN
    IF j <= NN THEN Frame(NameId[Names[j]], <<0, 0>>, AnyBody)
    ELSE IF j = NN + 1 THEN Frame(TXXX, <<0, 0>>, AnyBody) ELSE Frame(PRIV, <<0, 0>>, AnyBody)]
NameKeys == { <<k, i, c>> \in (0..(NN + 1)) \X (1..NN) \X {0, 1} : Mine(i) /\ (IsWide \/ (k + i) % 4 = 0) }
NameRow(k, i) ==
    LET n == Names[i] v == 3 + ((k + i) % 2) IN
    << [op |-> "readb", h |-> 0, b |-> ForeignTag(v, 0, 0, <<>>, AllFrames(k), 3, FALSE)], Get(0, n), GetId(0, NameId[n]),
       SetName(0, n, B(<<110, 101, 119>>)), Get(0, n), DelName(0, n), Get(0, n), DelName(0, n) >>
    \o [j \in 1..NN |-> Get(0, Names[j])]
    \o << SetName(0, n, UniB), Get(0, n), DelName(0, Names[(i % NN) + 1]), SetName(0, Names[(i % NN) + 1], IsoA),
          [op |-> "getcs", h |-> 0], [op |-> "getas", h |-> 0] >>
CNameRow(k, i) ==
    LET n == Names[i] v == 3 + ((k + i) % 2) full == ForeignTag(v, 0, 0, <<>>, AllFrames(k), 3, FALSE) IN
    << (IF k % 3 = 0 THEN [op |-> "c_new", c |-> 0] ELSE [op |-> "c_loadb", c |-> 0, b |-> full]), CGet(0, n), CSetName(0, n, B(<<110, 101, 119>>)), CGet(0, n) >>
    \o [j \in 1..NN |-> CGet(0, Names[j])]
    \o << CSetName(0, n, UniB), CGet(0, n), CSetName(0, Names[(i % NN) + 1], IsoE), CGet(0, Names[(i % NN) + 1]), CGet(0, n),
          [op |-> "c_alias", c |-> 0, name |-> n], [op |-> "c_free", c |-> 0], CGet(0, n) >>

----------------------------------------------------------------------------
(* ids: every id one character away from one that has a name, in front of the real one.                      *)

IdChars == [i \in 1..36 |-> IF i <= 10 THEN 47 + i ELSE 54 + i]
Near(id, p) == LET cs == SelectSeq(IdChars, LAMBDA c : c # id[p]) IN
               [i \in 1..Len(cs) |-> Frame([id EXCEPT ![p] = cs[i]], <<0, i>>, AnyBody)]
NearTag(ver, id, p, real) ==
    ForeignTag(ver, 0, 0, <<>>, Near(id, p) \o (IF real THEN << Frame(id, <<0, 0>>, AnyBody) >> ELSE <<>>), 0, FALSE)
\* the same letters, small; the beginning only (as the ids of ID3v2.2 are); and what strncmp with a smaller length would take for the id
Small(id) == [i \in 1..4 |-> IF id[i] \in 65..90 THEN id[i] + 32 ELSE id[i]]
OneSmall(id, p) == [id EXCEPT ![p] = IF @ \in 65..90 THEN @ + 32 ELSE @ + 16]
IdKeys == { <<i, p, real>> \in (1..NN) \X (1..4) \X BOOLEAN : Mine(i) }
IdRow(i, p, real) ==
    LET n == Names[i] id == NameId[n] IN
    << Mk(0, NearTag(3 + ((i + p) % 2), id, p, real)), Rd(0, 0), Get(0, n), GetId(0, id), Gets(0, id), [op |-> "getcs", h |-> 0], [op |-> "getas", h |-> 0],
       GetId(0, Small(id)), Gets(0, OneSmall(id, p)),
       GetId(0, SubSeq(id, 1, p - 1)), Gets(0, SubSeq(id, 1, p - 1)), [op |-> "del_frame", h |-> 0, id |-> SubSeq(id, 1, p - 1)], GetId(0, <<id[1], id[2], 50>>), [op |-> "del_frame", h |-> 0, id |-> Small(id)], [op |-> "del_frame", h |-> 0, id |-> OneSmall(id, p)],
       DelName(0, n), DelName(0, n), SetName(0, n, IsoA), Get(0, n), [op |-> "del_ci", h |-> 0, k |-> 0], [op |-> "del_ai", h |-> 0, k |-> 0],
       [op |-> "del_frame", h |-> 0, id |-> Near(id, p)[7].id], Gets(0, Near(id, p)[8].id), Wr(0, 0),
       [op |-> "c_load", c |-> 0, f |-> 0], CGet(0, n), CSetName(0, n, UniB), CGet(0, n) >>

----------------------------------------------------------------------------
(* lists: every list of up to ListMax comments, pictures, titles and others, under every edit and query.     *)

ListMax == IF IsWide THEN 5 ELSE 3
ListIds == << COMM, APIC, TIT2, PRIV >>
Shapes == UNION { [1..n -> 1..(IF n >= 4 THEN 3 ELSE 4)] : n \in 0..ListMax }
ShapeNo(q) == FoldLeft(LAMBDA a, x : a * 5 + x, 0, q)
ListTag(q) == ForeignTag(3 + (Len(q) % 2), 0, 0, <<>>, [i \in 1..Len(q) |-> Frame(ListIds[q[i]], <<0, i>>, AnyBody)], 1, FALSE)
Idx(n) == -1..(n + 1)
ListEdits(n) ==
    { [op |-> o, h |-> 0, k |-> i] : o \in {"del_ci", "del_ai"}, i \in Idx(n) }
    \cup { DelName(0, x) : x \in {"title", "comment", "cover"} } \cup { SetName(0, x, IsoA) : x \in {"title", "comment", "cover"} }
    \cup { [op |-> "del_frame", h |-> 0, id |-> PRIV],
           [op |-> "add_commf", h |-> 0, fl |-> <<0, 9>>, lang |-> English, desc |-> IsoA, comm |-> IsoA],
           [op |-> "add_apicf", h |-> 0, fl |-> <<0, 9>>, mime |-> Png, desc |-> UniB, pt |-> 4, pic |-> PicZ] }
\* one edit, then all of one kind from the last index to the first, with the lists asked for in between
ListKeys == { q \in Shapes : Mine(ShapeNo(q)) }
Count(q, x) == Len(SelectSeq(q, LAMBDA y : y = x))
ListRows(q) ==
    { << [op |-> "readb", h |-> 0, b |-> ListTag(q)], [op |-> "hold", h |-> 0, id |-> COMM], [op |-> "getcs", h |-> 0], [op |-> "getas", h |-> 0], e,
         [op |-> "getcs", h |-> 0], [op |-> "getas", h |-> 0], Get(0, "title"), Get(0, "comment"), Get(0, "cover"), [op |-> "held", h |-> 0] >>
      \o (IF IsWide THEN [i \in 1..Count(q, 1) |-> [op |-> "del_ci", h |-> 0, k |-> Count(q, 1) - i]] \o << [op |-> "del_ai", h |-> 0, k |-> 0], [op |-> "getas", h |-> 0] >>
          ELSE <<>>)
      : e \in ListEdits(Len(q)) }

----------------------------------------------------------------------------
(* lens: every length around the borders of the size fields, in every field that has one.                    *)

LenAll == (0..140) \cup (240..270) \cup (16360..16400) \cup (2097130..2097160)
LenQuick == (0..20) \cup (100..136) \cup (250..258) \cup (16364..16390) \cup {2097132, 2097141, 2097142, 2097151, 2097152}
LenKeys == { <<ver, n>> \in {3, 4} \X (IF IsWide THEN LenAll ELSE LenQuick) : Mine(n) /\ (IsWide \/ n < 300 \/ ver = 3 + (n % 2)) }
Pat(n) == IF n <= 0 THEN <<>> ELSE Cat(Rep(120, n - 1), Rep(121, 1))
Uni(n) == Cat(B(LeBom), Rep(66, (n \div 2) * 2))
LenRow(ver, n) ==
    << Mk(0, IF ver = 4 THEN Cat(Base4p, Pat(n)) ELSE Pat(n)), (IF ver = 4 THEN Rd(0, 0) ELSE [op |-> "new", h |-> 0, pad |-> n]),
       SetName(0, "title", Pat(n)), SetName(0, "artist", Uni(n)),
       [op |-> "set_commf", h |-> 0, fl |-> <<0, 0>>, lang |-> English, desc |-> Pat(n), comm |-> Pat(n)],
       [op |-> "add_commf", h |-> 0, fl |-> <<0, 0>>, lang |-> English, desc |-> Uni(n), comm |-> Nothing],
       [op |-> "set_apicf", h |-> 0, fl |-> <<0, 0>>, mime |-> Pat(n), desc |-> Nothing, pt |-> 3, pic |-> Pat(n)],
       [op |-> "add_apicf", h |-> 0, fl |-> <<0, 0>>, mime |-> Nothing, desc |-> Uni(n), pt |-> 3, pic |-> Nothing],
       Wr(0, 0), Rd(1, 0), Wr(0, 1), Rd(1, 0), SetName(1, "title", IsoA), DelName(1, "cover"), Wr(0, 1), Rd(0, 0), [op |-> "del", f |-> 0] >>
\* padding, and frames of another writer, of that length
PadRow(ver, n) ==
    << Mk(0, Cat(ForeignTag(ver, 0, 0, <<>>, << Frame(PRIV, <<0, 0>>, Pat(n + 1)), FTit >>, n, FALSE), Audio)), Rd(0, 0), Wr(0, 0), Rd(1, 0), Wr(0, 0),
       SetName(1, "artist", Pat(n)), Wr(0, 1), Rd(2, 0), Wr(0, 0), Rd(2, 0), [op |-> "del", f |-> 0] >>
PadKeys == { <<ver, n>> \in {3, 4} \X ((0..3) \cup (2030..2060) \cup (4090..4100) \cup (IF IsWide THEN LenAll \cup (1980..2110) ELSE {127, 128})) : Mine(n) /\ (IsWide \/ ver = 3 + (n % 2)) }

----------------------------------------------------------------------------
(* audio: every first byte, and everything that begins like a tag, behind every kind of tag and none.        *)

Almost == { <<73, 68, 51>>, <<73, 68>>, <<73>>, <<51, 68, 73>>, <<84, 65, 71>>, <<73, 68, 51, 3, 0, 0, 0, 0, 0>> }
Sounds(v) == { <<v>>, <<v, v, v>> } \cup { a \o <<v % 128>> : a \in Almost }
          \cup { <<73, 68, 51, 3, 0, 0, 0, 0, 0, v % 128>>, <<73, 68, 51, v, 0, 0, 0, 0, 0, 0, 1>>, <<51, 68, 73, 4, 0, v, 0, 0, 0, 0>> }
Fronts == << <<>>, ForeignTag(3, 0, 0, <<>>, << FTit >>, 0, FALSE), ForeignTag(4, 0, 16, <<>>, << FPri >>, 0, TRUE),
             ForeignTag(3, 0, 64, B(<<0, 0, 0, 6, 0, 0, 0, 0, 0, 0>>), << FTit >>, 2, FALSE), ForeignTag(4, 0, 0, <<>>, << FPri >>, 2500, FALSE) >>
SoundKeys == { <<k, v>> \in (1..Len(Fronts)) \X (0..255) : Mine(v) /\ (IsWide \/ (k + v) % Len(Fronts) = 0) }
\* what other formats leave at the end of a file: an ID3v1 trailer, the footer of an appended tag, an APE tag, lyrics
V1 == Cat(B(<<84, 65, 71>>), Cat(Rep(65, 30), Cat(Rep(0, 94), B(<<17>>))))
Ape == <<65, 80, 69, 84, 65, 71, 69, 88, 208, 7, 0, 0, 32, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 128, 0, 0, 0, 0, 0, 0, 0, 0>>
Lyr == <<76, 89, 82, 73, 67, 83, 66, 69, 71, 73, 78, 49, 76, 89, 82, 73, 67, 83, 69, 78, 68>>
Trailers == << ForeignTag(3, 0, 0, <<>>, << FTit >>, 0, FALSE), ForeignTag(4, 0, 16, <<>>, << FPri >>, 0, TRUE), ForeignTag(3, 0, 0, <<>>, <<>>, 0, FALSE),
               B(<<51, 68, 73, 4, 0, 16, 0, 0, 0, 0>>), V1, Cat(B(Lyr), V1), B(Ape), Cat(B(Ape), V1), Cat(ForeignTag(4, 0, 16, <<>>, << FPri >>, 0, TRUE), V1),
               B(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>), B(<<26>>), B(<<13, 10>>), B(<<255, 255, 255, 255>>), <<>> >>
Lengths == {0, 1, 2, 9, 10, 11, 127, 128, 129, 2048, 4085, 4086, 4087, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 131072}
EndKeys == { <<k, a, n>> \in (1..Len(Fronts)) \X (1..Len(Trailers)) \X Lengths : Mine(a + n) /\ (IsWide \/ (k + a + n) % 4 = 0) }
EndRow(k, a, n) ==
    << Mk(0, Cat(Fronts[k], Cat(Pat(n), Trailers[a]))), Rd(0, 0), [op |-> "newe", h |-> 1], SetName(1, "title", IsoA), Wr(0, 1), Wr(0, 1), [op |-> "del", f |-> 0], Wr(0, 1), Rd(0, 0), [op |-> "del", f |-> 0] >>
SoundRows(k, v) ==
    { << Mk(0, Cat(Fronts[k], B(a))), Rd(0, 0), [op |-> "newe", h |-> 1], SetName(1, "title", IsoA), Wr(0, 1), Wr(0, 1), [op |-> "del", f |-> 0] >> : a \in Sounds(v) }

----------------------------------------------------------------------------
(* flags: every flag bit of a frame and of a tag, in tags of every size class, with every kind of frame first. *)

Bits == << 0, 1, 2, 4, 8, 16, 32, 64, 128, 255 >>
Volume == << 0, 130, 17000 >>
FlagKeys == { <<ver, k, i, j>> \in {3, 4} \X (1..3) \X (1..Len(Bits)) \X (1..Len(Bits)) : Mine(i + j) /\ (i = 1 \/ j = 1 \/ i = j \/ (IsWide /\ k = 2)) }
FlagFrames(fl, k, r) ==
    LET all == << Frame(TIT2, fl, AnyBody), Frame(COMM, fl, AnyBody), Frame(APIC, fl, Cat(AnyBody, Rep(7, Volume[k]))), Frame(TXXX, fl, AnyBody),
                  Frame(<<84, 65, 76, 66>>, <<0, 0>>, AnyBody) >>
    IN [n \in 1..Len(all) |-> all[((n + r) % Len(all)) + 1]]


FlagRow(ver, k, i, j) ==
    LET r == i + j
        raw == Frame(PRIV, <<Bits[i], Bits[j]>>, B(<<1, 2, 3, 4, 5>>))
        fr == FlagFrames(<<Bits[i], Bits[j]>>, k, r)
    IN << Mk(0, Cat(ForeignTag(ver, r, IF i = 1 THEN 32 ELSE 0, <<>>, (IF r % 2 = 0 THEN <<raw>> \o fr ELSE fr \o <<raw>>), 9, FALSE), Audio)), Rd(0, 0), Wr(0, 0), Rd(1, 0),
          [op |-> "readb", h |-> 2, b |-> ForeignTag(ver, 0, 0, <<>>, fr, 0, FALSE)], Wr(1, 2), Rd(3, 1),
          SetName(0, "artist", IsoA), [op |-> "set_text", h |-> 0, id |-> TXXX, fl |-> <<Bits[i], Bits[j]>>, text |-> IsoA], Wr(0, 0), Rd(1, 0), [op |-> "del", f |-> 0] >>

----------------------------------------------------------------------------
(* raws: every kind of frame that the library does not look into, with every byte value in it.               *)

RawKinds == << <<65, 69, 78, 67>>, <<65, 83, 80, 73>>, <<67, 79, 77, 82>>, <<67, 72, 65, 80>>, <<67, 84, 79, 67>>, <<69, 78, 67, 82>>, <<69, 81, 85, 50>>, <<69, 81, 85, 65>>,
               <<69, 84, 67, 79>>, <<71, 69, 79, 66>>, <<71, 82, 73, 68>>, <<73, 80, 76, 83>>, <<76, 73, 78, 75>>, <<77, 67, 68, 73>>, <<77, 76, 76, 84>>, <<79, 87, 78, 69>>,
               <<80, 67, 78, 84>>, <<80, 79, 80, 77>>, <<80, 79, 83, 83>>, PRIV, <<82, 66, 85, 70>>, <<82, 86, 65, 50>>, <<82, 86, 65, 68>>, <<82, 86, 82, 66>>, <<83, 69, 69, 75>>,
               <<83, 73, 71, 78>>, <<83, 89, 76, 84>>, <<83, 89, 84, 67>>, <<85, 70, 73, 68>>, <<85, 83, 69, 82>>, <<85, 83, 76, 84>>, <<87, 67, 79, 77>>, <<87, 67, 79, 80>>,
               <<87, 79, 65, 70>>, <<87, 79, 65, 82>>, <<87, 79, 65, 83>>, <<87, 79, 82, 83>>, <<87, 80, 65, 89>>, <<87, 80, 85, 66>>, <<87, 88, 88, 88>>, <<87, 88, 88, 88>>, <<88, 83, 79, 80>> >>
RawKeys == { <<ver, v>> \in {3, 4} \X (IF IsWide THEN 0..255 ELSE {0, 1, 2, 3, 4, 9, 13, 26, 32, 48, 65, 73, 127, 128, 254, 255}) : Mine(v) /\ (IsWide \/ ver = 3 + (v % 2)) }
RawRow(ver, v) ==
    << Mk(0, Cat(ForeignTag(ver, 0, 0, <<>>, [i \in 1..Len(RawKinds) |-> Frame(RawKinds[i], <<0, i>>, B(<<v, 110, v, 0, v, i, 0, v>>))], 20, FALSE), Audio)),
       Rd(0, 0), GetId(0, RawKinds[(v % Len(RawKinds)) + 1]), Gets(0, RawKinds[40]), SetName(0, "title", IsoA), Wr(0, 0), Rd(1, 0),
       [op |-> "del_frame", h |-> 1, id |-> RawKinds[(v % Len(RawKinds)) + 1]], Wr(0, 1), [op |-> "c_load", c |-> 0, f |-> 0] >>

----------------------------------------------------------------------------
(* sized: what a tag holds is handed back to its setters, replaced and deleted, at every size class.         *)

SizedLens == IF IsWide THEN {17, 127, 255, 300, 511, 1023, 1025, 2049, 4095, 4097, 8193, 16385, 32769, 65537, 131073, 262145, 1048577, 2097153}
             ELSE {17, 300, 1025, 4097, 20001, 65537, 300001}
Backs == << <<"title", [op |-> "alias", h |-> 0, dst |-> "title", src |-> "title"]>>, <<"title", [op |-> "alias", h |-> 0, dst |-> "artist", src |-> "title"]>>,
            <<"title", [op |-> "alias_f", h |-> 0, src |-> "title"]>>,
            <<"comment", [op |-> "alias_c", h |-> 0, how |-> "set"]>>, <<"comment", [op |-> "alias_c", h |-> 0, how |-> "setf"]>>,
            <<"comment", [op |-> "alias_c", h |-> 0, how |-> "swap"]>>, <<"comment", [op |-> "alias_c", h |-> 0, how |-> "add"]>>,
            <<"cover", [op |-> "alias_a", h |-> 0, how |-> "set"]>>, <<"cover", [op |-> "alias_a", h |-> 0, how |-> "setf"]>>,
            <<"cover", [op |-> "alias_a", h |-> 0, how |-> "add"]>> >>
SizedKeys == { <<k, n, u>> \in (1..Len(Backs)) \X SizedLens \X BOOLEAN : Mine(n + k) /\ (IsWide \/ u = ((n + k) % 2 = 0)) }
SizedText(n, u) == IF u THEN Uni(n) ELSE Pat(n)
SizedTag(n, u) ==
    LET t == SizedText(n, u) e == IF u THEN <<1>> ELSE <<0>> z == Term(t) IN
    ForeignTag(3 + (n % 2), 0, 0, <<>>,
        << Frame(TIT2, <<0, 1>>, CatAll(<< B(e), t, z >>)), Frame(COMM, <<0, 2>>, CatAll(<< B(e), English, t, z, t, z >>)),
           Frame(APIC, <<0, 4>>, CatAll(<< B(e), Png, Rep(0, 1), B(<<7>>), t, z, Pat(n) >>)), Frame(PRIV, <<0, 8>>, Pat(n)) >>, 3, FALSE)
On(h, e) == [e EXCEPT !.h = h]
SizedRow(k, n, u) ==
    LET name == Backs[k][1] e == Backs[k][2] big == IF name = "cover" THEN Pat(n + 3) ELSE SizedText(n + 2, u) IN
    << Mk(0, Cat(SizedTag(n, u), Audio)), Rd(0, 0), [op |-> "hold", h |-> 0, id |-> COMM], e, Get(0, name), e, SetName(0, name, IsoA), e, SetName(0, name, big), e,
       [op |-> "getcs", h |-> 0], [op |-> "getas", h |-> 0], Wr(0, 0), Rd(1, 0), On(1, e), DelName(1, name), On(1, e), SetName(1, name, big), Wr(0, 1), Wr(0, 0), Rd(1, 0),
       [op |-> "del", f |-> 0] >>
\* the same through the old interface
SizedOldRow(k, n, u) ==
    LET name == Backs[k][1] big == IF name = "cover" THEN Pat(n + 3) ELSE SizedText(n + 2, u) a == [op |-> "c_alias", c |-> 0, name |-> name] IN
    << Mk(0, Cat(SizedTag(n, u), Audio)), [op |-> "c_load", c |-> 0, f |-> 0], CGet(0, name), a, CGet(0, name), CSetName(0, name, IsoA), a, CSetName(0, name, big), a, CGet(0, name),
       [op |-> "c_write", f |-> 0, c |-> 0], [op |-> "c_load", c |-> 1, f |-> 0], CGet(1, name), [op |-> "c_write", f |-> 0, c |-> 1], Rd(0, 0), [op |-> "c_del", f |-> 0] >>

----------------------------------------------------------------------------
Rows ==
    CASE Mode = "read"  -> { ReadRow(k[1], k[2]) : k \in ByteKeys }
      [] Mode = "keep"  -> { KeepRow(k[1], k[2]) : k \in ByteKeys }
      [] Mode = "set"   -> { SetRow(k[1], k[2]) : k \in ByteKeys }
      [] Mode = "cset"  -> { CSetRow(k[1], k[2]) : k \in ByteKeys }
      [] Mode = "names" -> { NameRow(k[1], k[2]) : k \in { x \in NameKeys : x[3] = 0 } }
      [] Mode = "cnames" -> { CNameRow(k[1], k[2]) : k \in { x \in NameKeys : x[3] = 1 } }
      [] Mode = "ids"   -> { IdRow(k[1], k[2], k[3]) : k \in IdKeys }
      [] Mode = "lists" -> UNION { ListRows(q) : q \in ListKeys }
      [] Mode = "lens"  -> { LenRow(k[1], k[2]) : k \in LenKeys } \cup { PadRow(k[1], k[2]) : k \in PadKeys }
      [] Mode = "audio" -> UNION { SoundRows(k[1], k[2]) : k \in SoundKeys }
      [] Mode = "ends" -> { EndRow(k[1], k[2], k[3]) : k \in EndKeys }
      [] Mode = "raws" -> { RawRow(k[1], k[2]) : k \in RawKeys }
      [] Mode = "sized" -> { SizedRow(k[1], k[2], k[3]) : k \in SizedKeys }
      [] Mode = "csized" -> { SizedOldRow(k[1], k[2], k[3]) : k \in { x \in SizedKeys : x[1] \in {1, 4, 8} } }
      [] Mode = "flags" -> { FlagRow(k[1], k[2], k[3], k[4]) : k \in FlagKeys }

Go(e) == /\ Call(e) /\ hist' = Append(hist, e)
         /\ (Len(hist') = Len(row') => Emit(hist'))

Next == \/ row = <<>> /\ \E r \in Rows : row' = r /\ Go(r[1])
        \/ row # <<>> /\ Len(hist) < Len(row) /\ UNCHANGED row /\ Go(row[Len(hist) + 1])
TInit == MCInit /\ row = <<>>
Spec == TInit /\ [][Next]_<<vars, hist, row>>
TView == <<row, Len(hist)>>

----------------------------------------------------------------------------
(* Laws of single tables, on top of those of Id3Lib.                                                         *)

LastOp == hist[Len(hist)]
\* what is in a row has been asked for a tag that conforms: the specification has an answer for every call
AllConform == (hist # <<>> /\ LastOp.op = "mk") => Conforming(LastOp.b)
ComposedIsParsed ==
    (Mode \in {"read", "keep"} /\ Len(hist) = 1) =>
        \E k \in ByteKeys : LastOp.b = Cat(ByteTag(k[1], k[2]), B(IF Mode = "read" THEN <<k[2]>> ELSE <<k[2], 255, k[2]>>))
                            /\ TagOf(LastOp.b).fr = ReadFrames(k[2])
\* C06: what a named setter or deleter did to the tag, said in terms of the frames of the other names
NamedOnly == [][
    (hist' # hist /\ hist # <<>> /\ hist'[Len(hist')].op \in {"setn", "deln", "set_comm", "set_cover"} /\ IsTag(tags[0]) /\ IsTag(tags'[0])) =>
        LET e == hist'[Len(hist')]
            id == CASE e.op = "set_comm" -> COMM [] e.op = "set_cover" -> APIC [] OTHER -> NameId[e.name]
            rest(fs) == SelectSeq(fs, LAMBDA f : f.id # id)
        IN e.h = 0 => rest(tags'[0].fr) = rest(tags[0].fr) ]_<<vars, hist>>
=============================================================================
