------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Validates recorded calls against Id3Lib.  Each line of the trace is one  *)
(* call: operation, arguments, and (field o) what the driver observed.  The *)
(* specification state evolves by Id3Lib's actions alone; every observation *)
(* is compared with it, and disagreements are printed as MISMATCH lines     *)
(* with the observation group they belong to.  PROP selects the groups that *)
(* decide the property under check.                                         *)
(***************************************************************************)
EXTENDS Id3Calls, Json, IOUtils, FiniteSets

VARIABLES l,              \* next line
          dead,           \* rest of this scenario is skipped (after a crash)
          last,           \* the last input that was not a conforming tag, and what the reader made of it
          exts,           \* size of the extended header each tag shows since it was made (-2: not seen yet)
          held            \* a list of frames the caller still holds: of which tag, and where those frames are now (0: gone)

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

(* Observation groups                                                                                        *)
(*  crash  the call did not return              exist  null / non-null results of readers                    *)
(*  hdr    version, revision, flags             frames ids, flags, fields, in order                          *)
(*  strz   string lengths seen by the caller    acct   tag size, padding, frame sizes                        *)
(*  ptr    addresses of untouched frames        ret    results of getters and header readers                 *)
(*  file   complete file bytes                  ffr    frames in the file                                    *)
(*  audio  bytes after the tag                  wf     well-formedness of the written tag                    *)
(*  live   memory left after releasing all      fds    descriptors left open                                 *)
(*  dir    stray files                          truth  salvaged frames lie in the input                      *)
(*  cview  compatibility view                   cret   compatibility results                                 *)
(*  uni    text helpers                         buf    caller's buffer unchanged                             *)
(*  agree  equal bytes read twice, from a file or a buffer, give the same                                    *)
(*  again  equal bytes read twice in the same way, by either interface, give the same                        *)
(*  touch  modification times of files the call has no business with                                         *)
AllGroups == {"crash", "exist", "hdr", "frames", "strz", "acct", "ptr", "ret", "file", "ffr", "audio", "wf",
              "live", "fds", "dir", "truth", "cview", "cret", "uni", "buf", "agree", "again", "touch"}
Relevant ==
    [ C01 |-> {"crash", "exist", "frames", "hdr"},
      C02 |-> {"crash", "audio"},
      C03 |-> {"crash", "wf"},
      C04 |-> {"crash", "exist", "hdr", "frames", "strz"},
      C05 |-> {"crash", "ffr", "exist"},
      C06 |-> {"crash", "frames", "ret"},
      C07 |-> {"crash", "exist", "truth", "frames", "strz"},
      C08 |-> {"crash", "exist", "hdr", "ret", "frames", "agree", "again"},
      C09 |-> {"crash", "frames", "acct", "ret", "file", "dir", "ptr", "touch"},
      C10 |-> {"crash", "ptr", "live", "fds", "frames", "buf"},
      C11 |-> {"crash", "cview", "cret", "file", "exist", "live", "truth", "again"},
      C13 |-> {"crash", "file"},
      C14 |-> {"crash", "uni"},
      C15 |-> {"crash", "acct"},
      C16 |-> AllGroups \ {"live", "fds", "dir", "agree"},
      C17 |-> {"crash", "frames", "hdr", "acct", "ptr", "ret", "file", "buf", "dir", "again", "touch", "cview", "cret"},
      ALL |-> AllGroups ]
Rel(g) == g \in Relevant[Prop]

Ev == Trace[l]
O == Ev.o

----------------------------------------------------------------------------
\* comparison of one observed tag with the specified one.  keep: previous positions of the frames (0: new frame)

FrameObs(f) == [id |-> f.id, fl |-> f.fl, v |-> Fields(f.id, f.body)]

Z(f) == LET v == Fields(f.id, f.body) IN
        CASE v = << >> -> -1
          [] Kind(f.id) = "text" -> StrSeen(At(v[1], 0), v[2])
          [] Kind(f.id) = "comm" -> StrSeen(At(v[1], 0), v[4])
          [] OTHER -> -1

FramesBad(fs, ofr) ==
    \/ Len(fs) # Len(ofr)
    \/ \E i \in 1..Len(fs) : ofr[i].id # fs[i].id \/ ofr[i].fl # fs[i].fl \/ ofr[i].v # Fields(fs[i].id, fs[i].body)

TagBad(t, ot, keep) ==
    IF (ot.n = 1) # ~IsTag(t) THEN {"exist", "frames"}
    ELSE IF ~IsTag(t) THEN {}
    ELSE (IF Rel("hdr") /\ (ot.ver # t.ver \/ ot.rev # t.rev \/ ot.hfl # t.hfl \/ ot.idn # 1) THEN {"hdr"} ELSE {})
     \cup (IF Rel("frames") /\ FramesBad(t.fr, ot.fr) THEN {"frames"} ELSE {})
     \cup (IF Rel("strz") /\ Len(t.fr) = Len(ot.fr) /\ (\E i \in 1..Len(t.fr) : ot.fr[i].z # Z(t.fr[i]))
           THEN {"strz"} ELSE {})
     \cup (IF Rel("acct") /\ (ot.tsz # t.tsz \/ ot.pad # t.pad \/ Len(ot.fr) # Len(t.fr)
                              \/ (\E i \in 1..Len(t.fr) : i <= Len(ot.fr) /\ ot.fr[i].sz # BLen(t.fr[i].body)))
           THEN {"acct"} ELSE {})
     \cup (IF Rel("ptr") /\ keep # <<>>
              /\ (Len(ot.fr) # Len(keep) \/ (\E i \in 1..Len(keep) : keep[i] # 0 /\ i <= Len(ot.fr) /\ ot.fr[i].p # keep[i]))
           THEN {"ptr"} ELSE {})

\* all observed tags; only the tag in handle h was touched and its frames come from `keep`
TagsBad(h, keep) ==
    UNION { LET ot == O.T[i] IN TagBad(tags'[ot.h], ot, IF ot.h = h THEN keep ELSE SamePos(ot.h)) : i \in 1..Len(O.T) }

ViewBad(c, oc) ==
    LET x == ctags'[c] IN
    IF (oc.n = 1) # ~IsCompat(x) THEN {"cview", "exist"}
    ELSE IF ~IsCompat(x) THEN {}
    ELSE (IF \/ Len(oc.view) # Len(x.view)
             \/ oc.ver # x.hver \/ oc.rev # x.hrev \/ oc.hfl # x.hfl \/ oc.tsz # x.htsz \/ oc.idn # 1
             \/ \E i \in 1..Len(x.view) :
                  LET a == x.view[i] o == oc.view[i] IN
                  o.id # a.id \/ o.fl # a.fl \/ o.sz # BLen(a.body) \/ o.d # a.body \/ o.p # i
          THEN {"cview"} ELSE {})
         \cup (IF TagBad(x.tag, oc.tag, <<>>) # {} \/ FramesBad(x.tag.fr, oc.tag.fr)
                  \/ oc.tag.tsz # x.tag.tsz \/ oc.tag.pad # x.tag.pad THEN {"cview"} ELSE {})

\* a file against its specified content; t: the tag just written to it (or NoTag)
FileBad(of, t) ==
    LET x == files'[of.f] IN
    (IF Rel("file") /\ ((of.ex = 1) # x.ex \/ of.b # x.b) THEN {"file"} ELSE {})
    \cup (IF Rel("audio") /\ ((of.ex = 1) # x.ex
             \/ (IF IsTag(t) THEN LET a == AudioOf(x.b) n == BLen(of.b) - BLen(a) h == HeaderOf(of.b) IN
                                  n < 0 \/ Drop(of.b, n) # a \/ ~h.ok \/ RegionLen(h) # n
                 ELSE of.b # x.b))
          THEN {"audio"} ELSE {})
    \cup (IF Rel("ffr") /\ x.ex /\ IsTag(t)
             /\ (LET p == TagOf(of.b) IN ~p.ok \/ p.fr # Plain(t.fr))
          THEN {"ffr"} ELSE {})
    \cup (IF Rel("acct") /\ x.ex /\ IsTag(t)
             /\ (LET p == TagOf(of.b) IN ~p.ok \/ p.tsz # t.tsz \/ (p.conf /\ p.tsz - FramesLen(p.fr) # t.pad))
          THEN {"acct"} ELSE {})
    \cup (IF Rel("wf") /\ x.ex /\ IsTag(t) /\ WellFormedTag(x.b, AudioOf(x.b))   \* not for salvaged tags
             /\ (\/ ~WellFormedTag(of.b, AudioOf(x.b))
                 \/ LET p == TagOf(of.b) IN
                    \E i \in 1..Len(t.fr) : t.fr[i].own /\ (i > Len(p.fr) \/ ~EncodingOk(p.fr[i])))
          THEN {"wf"} ELSE {})

FilesBad(t) == UNION { FileBad(O.F[i], IF IsTag(t) /\ O.F[i].f = Ev.f THEN t ELSE NoTag) : i \in 1..Len(O.F) }
CompatBad == UNION { ViewBad(O.C[i].h, O.C[i]) : i \in 1..Len(O.C) }

ExtraFiles == Cardinality({f \in Slots : files'[f].ex})
MiscBad == (IF Rel("dir") /\ O.dir # -1 /\ O.dir # ExtraFiles THEN {"dir"} ELSE {})
           \cup (IF Rel("fds") /\ O.fds # 0 THEN {"fds"} ELSE {})
           \cup (IF Rel("touch") /\ O.tch # 0 THEN {"touch"} ELSE {})

Report(bad) ==
    LET r == bad \cap Relevant[Prop] IN
    IF r = {} THEN TRUE
    ELSE PrintT("MISMATCH " \o ToJson([s |-> Ev.s, i |-> Ev.i, op |-> Ev.op, groups |-> SetToSeq(r)]))

\* only making or reading a tag may decide what it shows as the size of its extended header
Seen(s) == {i \in 1..Len(O.T) : O.T[i].h = s}
Makes(s) == Ev.op \in Fresh /\ "h" \in DOMAIN Ev /\ Ev.h = s
ExtsNext == [s \in Slots |-> IF Seen(s) = {} THEN (IF Makes(s) THEN -2 ELSE exts[s])
                             ELSE LET ot == O.T[CHOOSE i \in Seen(s) : TRUE] IN IF ot.n = 1 THEN -2 ELSE ot.ext]
ExtBad == IF Rel("hdr") /\ \E s \in Slots : ~Makes(s) /\ exts[s] # -2 /\ exts'[s] # -2 /\ exts'[s] # exts[s] THEN {"hdr"} ELSE {}

Observe(h, keep, t, more) == exts' = ExtsNext /\ Report(ExtBad \cup TagsBad(h, keep) \cup FilesBad(t) \cup CompatBad \cup MiscBad \cup more)

----------------------------------------------------------------------------
Is(op) == Ev.op = op

\* counters: 1 conforming tags read, 2 other inputs read
Count(k) == TLCSet(k, TLCGet(k) + 1)

\* reading: exact on conforming bytes, otherwise bound to what was observed
ObsTag(ot) ==
    IF ot.n = 1 THEN NoTag
    ELSE [ver |-> ot.ver, rev |-> ot.rev, hfl |-> ot.hfl, ext |-> 0,
          fr |-> [i \in 1..Len(ot.fr) |-> Foreign(Frame(ot.fr[i].id, ot.fr[i].fl, CatAll(ot.fr[i].v)))],
          pad |-> ot.pad, tsz |-> ot.tsz]
OTag(h) == O.T[CHOOSE i \in 1..Len(O.T) : O.T[i].h = h]

HeaderBad(h) ==
    IF O.R.ok # (IF h.ok THEN 1 ELSE 0) THEN {"ret"}
    ELSE IF h.ok /\ (O.R.ver # h.ver \/ O.R.rev # h.rev \/ O.R.hfl # h.hfl \/ O.R.idn # 1 \/ (h.safe /\ O.R.tsz # h.tsz))
         THEN {"ret"} ELSE {}

RetIs(x) == IF O.R # x THEN {"ret"} ELSE {}
Uni ==
    LET s == Ev.b u == ToUnicode(s) IN
    IF \/ O.same # (IF HasBom(s) THEN 1 ELSE 0) \/ O.src # s
       \/ O.n # BLen(u) \/ O.nt # BLen(u) + 2 \/ O.R # Cat(u, Rep(0, 2))
    THEN {"uni"} ELSE {}
StrLen ==
    IF O.n # BLen(Ev.b) \/ O.nt # BLen(StrBytes(Ev.b)) THEN {"uni"} ELSE {}

CGetBad ==
    LET x == ctags[Ev.c] id == NameId[Ev.name] i == First(x.view, id) IN
    IF O.R # i \/ (O.vn = 1) # (i = 0) THEN {"cret"}
    ELSE IF i # 0 /\ (\/ O.v # Fields(id, x.view[i].body)
                       \/ (Kind(id) = "text" /\ O.z # Z(x.view[i]))) THEN {"cret"} ELSE {}

\* a list of frames got from a tag is the caller's; the frames in it stay what they are until they are replaced or deleted
NoHeld == [h |-> -1, pos |-> <<>>]
Moved(i, keep) == LET js == {j \in 1..Len(keep) : keep[j] = i} IN IF i = 0 \/ js = {} THEN 0 ELSE CHOOSE j \in js : TRUE
HeldNext ==
    CASE Is("unhold") -> NoHeld
      [] Is("hold") /\ IsTag(tags[Ev.h]) -> [h |-> Ev.h, pos |-> Positions(tags[Ev.h].fr, Ev.id)]
      [] "h" \in DOMAIN Ev /\ Ev.h = held.h -> [held EXCEPT !.pos = LET keep == Origin(Ev) IN [i \in 1..Len(@) |-> Moved(@[i], keep)]]
      [] OTHER -> held
HeldBad ==
    IF Ev.h = held.h
       /\ (Len(O.R) # Len(held.pos) \/ (\E i \in 1..Len(held.pos) : held.pos[i] # 0 /\ O.R[i] # held.pos[i]))
    THEN {"ptr"} ELSE {}

\* the result of a call, compared with the state before it
ResultBad ==
    CASE O.nul = 1 -> IF "nr" \in DOMAIN O /\ O.nr # 0 THEN {"ret", "cret"} ELSE {}    \* nothing is got from no tag
      [] Is("hdr") -> HeaderBad(IF files[Ev.f].ex THEN HeaderOf(files[Ev.f].b) ELSE [ok |-> FALSE])
      [] Is("hdrb") -> HeaderBad(HeaderOf(Ev.b))
      [] Is("tou") -> Uni
      [] Is("slen") -> StrLen
      [] Is("getnull") -> RetIs(0)
      [] Is("held") -> HeldBad
      [] Is("hold") -> IF IsTag(tags[Ev.h]) THEN RetIs(Positions(tags[Ev.h].fr, Ev.id)) ELSE {}
      [] Ev.op \in {"readb", "readfb"} -> IF O.same = 1 THEN {} ELSE {"buf"}
      [] Ev.op \in {"get", "getn", "gets", "getcs", "getas", "alias", "alias_f", "alias_c", "alias_a"} ->
            IF ~IsTag(tags[Ev.h]) THEN {}
            ELSE LET fr == tags[Ev.h].fr IN
                 RetIs(CASE Is("get") -> First(fr, Ev.id)
                         [] Is("getn") -> First(fr, NameId[Ev.name])
                         [] Is("gets") -> Positions(fr, Ev.id)
                         [] Is("getcs") -> Positions(fr, COMM)
                         [] Is("getas") -> Positions(fr, APIC)
                         [] Ev.op \in {"alias", "alias_f"} -> IF OwnText(fr, NameId[Ev.src]).ok THEN 1 ELSE 0
                         [] Is("alias_c") -> IF OwnComment(fr).ok THEN 1 ELSE 0
                         [] Is("alias_a") -> IF OwnPicture(fr).ok THEN 1 ELSE 0)
      [] Is("c_alias") -> IF ~IsCompat(ctags[Ev.c]) THEN {}
                          ELSE LET fs == ctags[Ev.c].tag.fr
                                   ok == CASE Ev.name = "comment" -> OwnComment(fs).ok [] Ev.name = "cover" -> OwnPicture(fs).ok
                                           [] OTHER -> OwnText(fs, NameId[Ev.name]).ok
                               IN IF O.R = (IF ok THEN 1 ELSE 0) THEN {} ELSE {"cret"}
      [] Is("c_get") -> IF IsCompat(ctags[Ev.c]) THEN CGetBad ELSE {}
      [] OTHER -> {}

\* the driver skips a call when the handle is empty; it must be exactly when the specification says so
Skipped == CASE Ev.op \in Fresh \ {"free"} -> FALSE
             [] "h" \in DOMAIN Ev -> ~IsTag(tags[Ev.h])
             [] Ev.op \in {"c_new", "c_load", "c_loadb"} -> FALSE
             [] "c" \in DOMAIN Ev -> ~IsCompat(ctags[Ev.c])
             [] OTHER -> FALSE
NulBad == IF (O.nul = 1) # Skipped THEN {"exist", "frames"} ELSE {}

\* the tag that was just written to file Ev.f
JustWritten ==
    CASE Is("write") -> IF files[Ev.f].ex /\ IsTag(tags[Ev.h]) THEN tags'[Ev.h] ELSE NoTag
      [] Is("c_write") -> IF files[Ev.f].ex /\ IsCompat(ctags[Ev.c]) THEN ctags'[Ev.c].tag ELSE NoTag
      [] OTHER -> NoTag

Handle == IF "h" \in DOMAIN Ev THEN Ev.h ELSE -1

Reads == {"read", "readb", "readfb"}
CReads == {"c_load", "c_loadb"}
ReadInput == IF Ev.op \in {"readb", "c_loadb"} THEN Ev.b ELSE Content(Ev.f)
Salvage == Ev.op \in Reads \cup CReads /\ ~Conforming(ReadInput)
OCTag(c) == LET oc == O.C[CHOOSE i \in 1..Len(O.C) : O.C[i].h = c] IN IF oc.n = 1 THEN NoTag ELSE ObsTag(oc.tag)
\* what the reader made of the input before, if it was the same
Source == IF Ev.op \in {"read", "c_load"} THEN "file" ELSE "buffer"
Disagrees(t) ==
    IF ~("t" \in DOMAIN last /\ last.b = ReadInput /\ last.t # t) THEN {}
    ELSE IF last.src = Source THEN {"again"} ELSE {"agree"}

Step ==
    IF Salvage /\ Ev.op \in CReads
    THEN LET t == OCTag(Ev.c) IN
         /\ SetC(Ev.c, Compat(t)) /\ UNCHANGED held
         /\ Count(2)
         /\ last' = [b |-> ReadInput, t |-> t, src |-> Source]
         /\ Observe(-1, <<>>, NoTag,
                    (IF Salvaged(t, ReadInput) THEN {} ELSE {"truth"}) \cup (IF IsTag(t) /\ ~Exact(t) THEN {"acct"} ELSE {}) \cup Disagrees(t))
    ELSE IF Salvage
    THEN LET t == ObsTag(OTag(Ev.h)) IN
         /\ SetTag(Ev.h, t) /\ UNCHANGED <<ctags, files>>
         /\ Count(2)
         /\ last' = [b |-> ReadInput, t |-> t, src |-> Source]
         /\ held' = HeldNext
         /\ Observe(Ev.h, <<>>, NoTag,
                    (IF Salvaged(t, ReadInput) THEN {} ELSE {"truth"})
                    \cup (IF IsTag(t) /\ ~Exact(t) THEN {"acct"} ELSE {}) \cup ResultBad
                    \cup Disagrees(t))
    ELSE /\ Call(Ev) /\ UNCHANGED last /\ held' = HeldNext
         /\ (Ev.op \in Reads /\ IsTag(tags'[Ev.h]) => Count(1))
         /\ Observe(Handle, Origin(Ev), JustWritten, NulBad \cup ResultBad)

----------------------------------------------------------------------------
TraceInit == Init /\ l = 1 /\ exts = [s \in Slots |-> -2] /\ dead = FALSE /\ last = <<>> /\ held = NoHeld /\ TLCSet(1, 0) /\ TLCSet(2, 0)

Begin == /\ Is("S")
         /\ tags' = [s \in Slots |-> NoTag] /\ ctags' = [s \in Slots |-> NoTag]
         /\ files' = [s \in Slots |-> NoFile] /\ exts' = [s \in Slots |-> -2] /\ dead' = FALSE /\ last' = <<>> /\ held' = NoHeld
End   == /\ Is("end") /\ UNCHANGED <<vars, dead, last, held, exts>>
         /\ Report((IF O.live # 0 THEN {"live"} ELSE {}) \cup (IF O.fds # 0 THEN {"fds"} ELSE {}))
Crash == Is("crash") /\ UNCHANGED <<vars, last, held, exts>> /\ dead' = TRUE /\ Report({"crash"})

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Is("S") THEN Begin
       ELSE IF Is("crash") THEN Crash
       ELSE IF Is("end") THEN End
       ELSE IF dead THEN UNCHANGED <<vars, dead, last, held, exts>>
       ELSE Step /\ UNCHANGED dead

TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, dead, last, held, exts>>

\* every line was consumed
TraceAccepted == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
                 /\ PrintT("COUNTS " \o ToJson([conforming |-> TLCGet(1), salvaged |-> TLCGet(2)]))
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
