------------------------------- MODULE Id3Lib -------------------------------
(***************************************************************************)
(* The library as a state machine: tags held by the caller, tags held       *)
(* through the compatibility layer, and files.  One action per public       *)
(* function.  As in the code, the size of a tag (tsz) is a number of its    *)
(* own that every action has to keep in step with frames and padding; that  *)
(* it does is an invariant, not a definition.                               *)
(***************************************************************************)
EXTENDS Id3Format

CONSTANT Slots            \* handles / file names, a finite set of numbers

VARIABLES tags,           \* Slots -> tag or NoTag
          ctags,          \* Slots -> compatibility tag or NoTag
          files           \* Slots -> [ex, b]

vars == <<tags, ctags, files>>

NoTag == [none |-> TRUE]
IsTag(t) == "fr" \in DOMAIN t
NoFile == [ex |-> FALSE, b |-> <<>>]
FileWith(b) == [ex |-> TRUE, b |-> b]

\* frame ids behind the named functions
NameId == [ artist |-> <<84, 80, 69, 49>>,        \* TPE1
            album |-> <<84, 65, 76, 66>>,         \* TALB
            title |-> <<84, 73, 84, 50>>,         \* TIT2
            track |-> <<84, 82, 67, 75>>,         \* TRCK
            album_artist |-> <<84, 80, 69, 50>>,  \* TPE2
            genre |-> <<84, 67, 79, 78>>,         \* TCON
            year |-> <<84, 89, 69, 82>>,          \* TYER
            disc_number |-> <<84, 80, 79, 83>>,   \* TPOS
            composer |-> <<84, 67, 79, 77>>,      \* TCOM
            comment |-> COMM,
            cover |-> APIC ]

----------------------------------------------------------------------------
\* tags as values

\* frames made by the library itself carry own = TRUE
Own(id, fl, body) == [id |-> id, fl |-> fl, body |-> body, own |-> TRUE]
Foreign(f)        == [id |-> f.id, fl |-> f.fl, body |-> f.body, own |-> FALSE]

FSize(f) == FrameHeaderLen + BLen(f.body)

NewTag(pad) ==
    [ver |-> 3, rev |-> 0, hfl |-> 0, ext |-> 0, fr |-> <<>>, pad |-> pad, tsz |-> pad]

\* a new tag that takes over a header read from a file
NewTagFrom(h, pad) ==
    IF ~h.ok THEN NewTag(pad)
    ELSE [ver |-> h.ver, rev |-> h.rev, hfl |-> h.hfl, ext |-> 0, fr |-> <<>>, pad |-> pad, tsz |-> pad]

\* the tag a reader builds from parsed content p
Loaded(p) ==
    IF ~p.ok THEN NoTag
    ELSE [ver |-> p.ver, rev |-> p.rev, hfl |-> p.hfl, ext |-> p.ext,
          fr |-> [i \in 1..Len(p.fr) |-> Foreign(p.fr[i])],
          pad |-> p.tsz - FramesLen(p.fr), tsz |-> p.tsz]

LoadedFrom(bytes) == Loaded(TagOf(bytes))

Positions(fs, id) == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : fs[i].id = id)
First(fs, id) == LET p == Positions(fs, id) IN IF p = <<>> THEN 0 ELSE p[1]
Nth(fs, id, k) == LET p == Positions(fs, id) IN IF k < 0 \/ k >= Len(p) THEN 0 ELSE p[k + 1]   \* k from 0

Appended(t, f) == [t EXCEPT !.fr = Append(@, f), !.tsz = @ + FSize(f)]

Put(t, f) ==
    LET i == First(t.fr, f.id) IN
    IF i = 0 THEN Appended(t, f)
    ELSE [t EXCEPT !.fr[i] = f, !.tsz = @ + (FSize(f) - FSize(t.fr[i]))]

RemovedAt(t, i) ==
    IF i = 0 THEN t
    ELSE [t EXCEPT !.fr = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)), !.tsz = @ - FSize(t.fr[i])]

\* the tag after it was saved: padding is raised to the minimum
Saved(t) ==
    LET extra == IF t.pad < MinPadding THEN MinPadding - t.pad ELSE 0 IN
    [t EXCEPT !.pad = @ + extra, !.tsz = @ + extra]

\* neither extended header nor footer is written, so neither is announced
WrittenFlags(t) == LET f == ClearBit(t.hfl, 6) IN IF t.ver = 4 THEN ClearBit(f, 4) ELSE f

\* the bytes of a tag: a buffer of the declared size, zero where no frame lies
TagBytes(t) ==
    CatAll(<< HeaderBytes(t.ver, t.rev, WrittenFlags(t), t.tsz),
              FramesBytes(t.ver, t.fr),
              Rep(0, t.tsz - FramesLen(t.fr)) >>)

----------------------------------------------------------------------------
\* creating and releasing

Init == /\ tags = [s \in Slots |-> NoTag]
        /\ ctags = [s \in Slots |-> NoTag]
        /\ files = [s \in Slots |-> NoFile]

SetTag(h, t) == tags' = [tags EXCEPT ![h] = t]
SetFile(f, b) == files' = [files EXCEPT ![f] = FileWith(b)]

New(h, pad) == SetTag(h, NewTag(pad)) /\ UNCHANGED <<ctags, files>>
NewFromHeader(h, f, pad) ==
    /\ SetTag(h, NewTagFrom(IF files[f].ex THEN HeaderOf(files[f].b) ELSE [ok |-> FALSE], pad))
    /\ UNCHANGED <<ctags, files>>
Free(h) == SetTag(h, NoTag) /\ UNCHANGED <<ctags, files>>

\* reading; bytes that are not a conforming tag are covered by ReadOther
Conforming(bytes) == LET p == TagOf(bytes) IN p.conf \/ p.cut

ReadBytes(h, bytes) ==
    /\ Conforming(bytes)
    /\ SetTag(h, LoadedFrom(bytes)) /\ UNCHANGED <<ctags, files>>
Read(h, f) ==
    IF files[f].ex THEN ReadBytes(h, files[f].b)
    ELSE SetTag(h, NoTag) /\ UNCHANGED <<ctags, files>>

(* Anything else: the reader may give up or salvage what it can, but what it reports must be there.          *)
Salvaged(t, bytes) ==
    \/ ~IsTag(t)
    \/ LET p == HeaderOf(bytes) IN
       /\ p.ok /\ t.ver = p.ver
       /\ Truthful(bytes, t.ver, t.fr)
ReadOther(h, bytes, t) ==
    /\ ~Conforming(bytes)
    /\ Salvaged(t, bytes)
    /\ SetTag(h, t) /\ UNCHANGED <<ctags, files>>

----------------------------------------------------------------------------
\* editing

Edit(h, t) == SetTag(h, t) /\ UNCHANGED <<ctags, files>>

SetText(h, id, fl, text) == Edit(h, Put(tags[h], Own(id, fl, TextBody(text))))
SetCommFrame(h, fl, lang, desc, comm) == Edit(h, Put(tags[h], Own(COMM, fl, CommBody(lang, desc, comm))))
AddCommFrame(h, fl, lang, desc, comm) == Edit(h, Appended(tags[h], Own(COMM, fl, CommBody(lang, desc, comm))))
\* the short form has an empty description in the encoding of the comment
CommentBody(lang, comm) == CommBody(lang, IF HasBom(comm) THEN Bom ELSE <<>>, comm)
SetComment(h, lang, comm) == Edit(h, Put(tags[h], Own(COMM, Zero2, CommentBody(lang, comm))))
SetApicFrame(h, fl, mime, desc, pt, pic) == Edit(h, Put(tags[h], Own(APIC, fl, ApicBody(mime, pt, desc, pic))))
AddApicFrame(h, fl, mime, desc, pt, pic) == Edit(h, Appended(tags[h], Own(APIC, fl, ApicBody(mime, pt, desc, pic))))
CoverBody(mime, pic) == ApicBody(mime, 3, Bom, pic)
SetCover(h, mime, pic) == Edit(h, Put(tags[h], Own(APIC, Zero2, CoverBody(mime, pic))))

(* A string stored in a frame, as the caller's string functions see it, handed back to a setter.  They can     *)
(* only measure it when a byte order mark announces 16-bit units exactly where the frame has them.             *)
Unmeasured == [ok |-> FALSE, s |-> <<>>]
OwnStr(enc, s) ==
    LET z == IF Wide(enc) THEN FindZero2(s) ELSE FindZero(s)
        t == IF z < 0 THEN s ELSE Take(s, z)
    IN IF HasBom(t) # Wide(enc) \/ (Wide(enc) /\ BLen(t) % 2 = 1) THEN Unmeasured ELSE [ok |-> TRUE, s |-> t]

FieldsOf(fs, id) == LET i == First(fs, id) IN IF i = 0 THEN <<>> ELSE Fields(id, fs[i].body)
FlagsOf(fs, id) == fs[First(fs, id)].fl

OwnText(fs, id) ==
    LET v == FieldsOf(fs, id) IN IF Len(v) < 2 THEN Unmeasured ELSE OwnStr(At(v[1], 0), v[2])
\* comment: language, description, text; picture: MIME type, picture type, description, data
OwnComment(fs) ==
    LET v == FieldsOf(fs, COMM) IN
    IF v = <<>> THEN [ok |-> FALSE]
    ELSE LET d == OwnStr(At(v[1], 0), v[3]) c == OwnStr(At(v[1], 0), v[4]) IN
         IF ~d.ok \/ ~c.ok THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, fl |-> FlagsOf(fs, COMM), lang |-> v[2], desc |-> d.s, comm |-> c.s]
OwnPicture(fs) ==
    LET v == FieldsOf(fs, APIC) IN
    IF v = <<>> THEN [ok |-> FALSE]
    ELSE LET d == OwnStr(At(v[1], 0), v[4]) IN
         IF ~d.ok THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, fl |-> FlagsOf(fs, APIC), mime |-> Take(v[2], BLen(v[2]) - 1), pt |-> At(v[3], 0), desc |-> d.s, pic |-> v[5]]

SetFromOwnText(h, dst, src) ==
    LET x == OwnText(tags[h].fr, src) IN
    IF ~x.ok THEN UNCHANGED vars ELSE SetText(h, dst, Zero2, x.s)
\* id and flags are the frame's own as well
SetFromOwnFrame(h, id) ==
    LET x == OwnText(tags[h].fr, id) IN
    IF ~x.ok THEN UNCHANGED vars ELSE SetText(h, id, FlagsOf(tags[h].fr, id), x.s)
SetFromOwnComment(h, how) ==
    LET x == OwnComment(tags[h].fr) IN
    IF ~x.ok THEN UNCHANGED vars
    ELSE CASE how = "set"  -> SetComment(h, x.lang, x.comm)
           [] how = "setf" -> SetCommFrame(h, x.fl, x.lang, x.desc, x.comm)
           [] how = "swap" -> SetCommFrame(h, x.fl, x.lang, x.comm, x.desc)
           [] how = "add"  -> AddCommFrame(h, x.fl, x.lang, x.desc, x.comm)
SetFromOwnPicture(h, how) ==
    LET x == OwnPicture(tags[h].fr) IN
    IF ~x.ok THEN UNCHANGED vars
    ELSE CASE how = "set"  -> SetCover(h, x.mime, x.pic)
           [] how = "setf" -> SetApicFrame(h, x.fl, x.mime, x.desc, x.pt, x.pic)
           [] how = "add"  -> AddApicFrame(h, x.fl, x.mime, x.desc, x.pt, x.pic)

DeleteFrame(h, id) == Edit(h, RemovedAt(tags[h], First(tags[h].fr, id)))
DeleteNth(h, id, k) == Edit(h, RemovedAt(tags[h], Nth(tags[h].fr, id, k)))

----------------------------------------------------------------------------
\* files

MakeFile(f, b) == SetFile(f, b) /\ UNCHANGED <<tags, ctags>>
RemoveFile(f) == files' = [files EXCEPT ![f] = NoFile] /\ UNCHANGED <<tags, ctags>>

NewContent(b, t) == Cat(TagBytes(Saved(t)), AudioOf(b))

Write(f, h) ==
    IF ~files[f].ex THEN UNCHANGED vars
    ELSE /\ SetTag(h, Saved(tags[h]))
         /\ SetFile(f, NewContent(files[f].b, tags[h]))
         /\ UNCHANGED ctags

DeleteTag(f) ==
    IF ~files[f].ex THEN UNCHANGED vars
    ELSE SetFile(f, AudioOf(files[f].b)) /\ UNCHANGED <<tags, ctags>>

----------------------------------------------------------------------------
(* Compatibility layer: a tag plus an old-style view of its frames, kept in step by every setter.            *)

Compat(t) == IF ~IsTag(t) THEN NoTag
             ELSE [tag |-> t, view |-> t.fr, hver |-> t.ver, hrev |-> t.rev, hfl |-> t.hfl, htsz |-> t.tsz]
IsCompat(c) == "view" \in DOMAIN c
SetC(c, x) == ctags' = [ctags EXCEPT ![c] = x] /\ UNCHANGED <<tags, files>>

ViewPut(view, f) ==
    LET i == First(view, f.id) IN IF i = 0 THEN Append(view, f) ELSE [view EXCEPT ![i] = f]

CNew(c) == SetC(c, Compat(NewTag(0)))
CLoadBytes(c, bytes) == Conforming(bytes) /\ SetC(c, Compat(LoadedFrom(bytes)))
CLoad(c, f) == IF files[f].ex THEN CLoadBytes(c, files[f].b) ELSE SetC(c, NoTag)
CFree(c) == SetC(c, NoTag)
CPut(c, f) == SetC(c, [ctags[c] EXCEPT !.tag = Put(@, f), !.view = ViewPut(@, f)])
CSetText(c, id, text) == CPut(c, Own(id, Zero2, TextBody(text)))
Eng == FromSeq(<<101, 110, 103>>)
CSetComment(c, comm) == CPut(c, Own(COMM, Zero2, CommentBody(Eng, comm)))
CSetCover(c, mime, pic) == CPut(c, Own(APIC, Zero2, CoverBody(mime, pic)))
\* what the parse functions gave, handed back to the setters
CFromOwn(c, name) ==
    LET fs == ctags[c].tag.fr IN
    CASE name = "comment" -> LET x == OwnComment(fs) IN IF ~x.ok THEN UNCHANGED vars ELSE CSetComment(c, x.comm)
      [] name = "cover" -> LET x == OwnPicture(fs) IN IF ~x.ok THEN UNCHANGED vars ELSE CSetCover(c, x.mime, x.pic)
      [] OTHER -> LET x == OwnText(fs, NameId[name]) IN IF ~x.ok THEN UNCHANGED vars ELSE CSetText(c, NameId[name], x.s)
CWrite(f, c) ==
    IF ~files[f].ex THEN UNCHANGED vars
    ELSE /\ ctags' = [ctags EXCEPT ![c].tag = Saved(@)]
         /\ SetFile(f, NewContent(files[f].b, ctags[c].tag))
         /\ UNCHANGED tags

----------------------------------------------------------------------------
(* Properties of the design.                                                                                 *)

Exact(t) == t.tsz = FramesLen(t.fr) + t.pad /\ t.pad >= 0

\* C15
SizesExact == /\ \A h \in Slots : IsTag(tags[h]) => Exact(tags[h])
              /\ \A c \in Slots : IsCompat(ctags[c]) => Exact(ctags[c].tag)

Plain(fs) == [i \in 1..Len(fs) |-> Frame(fs[i].id, fs[i].fl, fs[i].body)]

\* C01: what would be written now is read back as it is
RoundTrips == \A h \in Slots : IsTag(tags[h]) =>
    LET p == TagOf(TagBytes(Saved(tags[h]))) IN
    p.ok /\ p.conf /\ p.fr = Plain(tags[h].fr) /\ p.ver = tags[h].ver

\* C03: ... and is well formed, whatever audio follows
WritesWellFormed == \A h \in Slots : IsTag(tags[h]) =>
    LET t == tags[h] b == TagBytes(Saved(t)) IN
    /\ WellFormedTag(b, <<>>)
    /\ \A i \in 1..Len(t.fr) : t.fr[i].own => EncodingOk(t.fr[i])

\* C13: saving again what was saved changes nothing
SaveStable == \A h \in Slots : IsTag(tags[h]) =>
    LET t == Saved(tags[h]) IN
    /\ Saved(t) = t
    /\ TagBytes(Saved(LoadedFrom(TagBytes(t)))) = TagBytes(t)

\* C11
ViewInStep == \A c \in Slots : IsCompat(ctags[c]) => ctags[c].view = ctags[c].tag.fr

\* C02 (action property): a file keeps its audio
AudioKept == [][\A f \in Slots :
    (files[f].ex /\ files'[f].ex /\ files[f] # files'[f]) =>
        \/ files'[f].b = AudioOf(files[f].b)                    \* tag deleted
        \/ AudioOf(files'[f].b) = AudioOf(files[f].b)           \* tag written
    ]_vars

\* C16 (action property): a step touches at most one tag and one file
Independent == [][
    /\ \A g, h \in Slots : (tags'[g] # tags[g] /\ tags'[h] # tags[h]) => g = h
    /\ \A g, h \in Slots : (ctags'[g] # ctags[g] /\ ctags'[h] # ctags[h]) => g = h
    /\ \A g, h \in Slots : (files'[g] # files[g] /\ files'[h] # files[h]) => g = h
    /\ ~(\E h, c \in Slots : tags'[h] # tags[h] /\ ctags'[c] # ctags[c])
    ]_vars

\* C06: frames of a tag change by one replacement of the first with that id, append or removal at a time
ListChange(a, b) ==
    \/ b = a
    \/ Len(b) = Len(a) + 1 /\ SubSeq(b, 1, Len(a)) = a
    \/ Len(b) = Len(a) /\ \E i \in 1..Len(a) : b = [a EXCEPT ![i] = b[i]] /\ b[i].id = a[i].id
                                                /\ \A j \in 1..(i - 1) : a[j].id # a[i].id
    \/ \E i \in 1..Len(a) : b = SubSeq(a, 1, i - 1) \o SubSeq(a, i + 1, Len(a))
=============================================================================
