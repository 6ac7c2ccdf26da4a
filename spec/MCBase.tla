------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Common part of the bounded models: every transition is one call taken    *)
(* from a menu; `hist` is the sequence of calls that led to the state (it   *)
(* is hidden from the fingerprint by VIEW), and with EMIT=1 every explored  *)
(* transition is printed as a call sequence to be replayed on the code.     *)
(***************************************************************************)
EXTENDS Id3Calls, Ledger, Json, IOUtils

VARIABLE hist

Depth == atoi(IOEnv.DEPTH)
Emitting == IOEnv.EMIT = "1"

Emit(h) == IF Emitting THEN PrintT("EMIT " \o ToJson(h)) ELSE TRUE

MCInit == Init /\ hist = <<>>
Take1(e) == Call(e) /\ hist' = Append(hist, e) /\ Emit(hist')
Bounded == Len(hist) < Depth
View == vars

\* C06 (action property): every call except those that put another tag in the handle is a list step
ListStep == [][\A h \in Slots :
    (hist' # hist /\ hist'[Len(hist')].op \notin Fresh /\ (IsTag(tags[h]) \/ IsTag(tags'[h]))) =>
        IsTag(tags[h]) /\ IsTag(tags'[h]) /\ ListChange(tags[h].fr, tags'[h].fr)
    ]_<<vars, hist>>

\* C15 (action property): every such call is a step of the bookkeeping (Ledger), so what LedgerLaws shows for all sizes
\* applies to it
LedgerOf(t) == [ln |-> [i \in DOMAIN t.fr |-> FrameHeaderLen + BLen(t.fr[i].body)], pad |-> t.pad, tsz |-> t.tsz]
Bookkeeping == [][hist' # hist =>
    LET op == hist'[Len(hist')].op IN
    /\ \A h \in Slots : op \notin Fresh /\ IsTag(tags[h]) /\ IsTag(tags'[h]) =>
                        LedgerStep(MinPadding, LedgerOf(tags[h]), LedgerOf(tags'[h]))
    /\ \A c \in Slots : op \notin {"c_new", "c_load", "c_loadb", "c_free"} /\ IsCompat(ctags[c]) /\ IsCompat(ctags'[c]) =>
                        LedgerStep(MinPadding, LedgerOf(ctags[c].tag), LedgerOf(ctags'[c].tag))
    ]_<<vars, hist>>

----------------------------------------------------------------------------
\* byte strings used by the models

B(q) == FromSeq(q)
IsoA == B(<<65>>)
IsoE == B(<<233, 98>>)
UniB == B(<<255, 254, 66, 0>>)
UniBE == B(<<254, 255, 0, 66, 1, 0>>)       \* big endian, with a zero byte in both halves of units
Nothing == <<>>
English == B(<<101, 110, 103>>)
LangZ == B(<<0, 0, 0>>)
Png == B(<<105, 109, 97, 103, 101, 47, 112, 110, 103>>)
PicZ == B(<<0, 255, 0, 0, 73, 68, 51>>)
PRIV == <<80, 82, 73, 86>>
TXXX == <<84, 88, 88, 88>>
TIT2 == NameId.title
TPE1 == NameId.artist
COMR == <<67, 79, 77, 82>>
AENC == <<65, 69, 78, 67>>

\* tags as other writers make them
ForeignTag(ver, rev, hfl, ext, fs, pad, footer) ==
    LET body == CatAll(<< ext, FramesBytes(ver, fs), Rep(0, pad) >>)
        n == BLen(body)
    IN CatAll(<< HeaderBytes(ver, rev, hfl, n), body,
                 IF footer THEN FromSeq(<<51, 68, 73, ver, rev, hfl>> \o Sync32(n)) ELSE <<>> >>)

FTit == Frame(TIT2, <<64, 0>>, B(<<0, 120, 121>>))                       \* not terminated
FTxx == Frame(TXXX, <<0, 0>>, B(<<3, 100, 0, 195, 169, 0, 122>>))         \* UTF-8, several values
FCom(d) == Frame(COMM, <<0, 0>>, B(<<1, 101, 110, 103, 255, 254, d, 0, 0, 0, 255, 254, 99, 0>>))
FApi(d) == Frame(APIC, <<0, 0>>, B(<<0, 105, 0, 3, d, 0, 1, 0, 2>>))
FPri == Frame(PRIV, <<32, 65>>, B(<<111, 0, 0, 9>>))
FComr == Frame(COMR, <<0, 128>>, B(<<0, 1>>))

Base3 == ForeignTag(3, 0, 0, <<>>, << FTit, FCom(97), FPri, FApi(112), FCom(98) >>, 7, FALSE)
Base4 == ForeignTag(4, 0, 80, B(<<0, 0, 0, 6, 1, 0>>), << FApi(113), FTxx, FComr, FCom(99), FApi(114) >>, 0, TRUE)
Base4p == ForeignTag(4, 0, 0, <<>>, << FPri >>, 3000, FALSE)
Audio == B(<<255, 251, 0, 0, 84>>)
=============================================================================
