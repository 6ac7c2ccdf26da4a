------------------------------ MODULE Id3Calls ------------------------------
(***************************************************************************)
(* A call is a record: op names the public function, the other fields are   *)
(* its arguments.  Call(e) is the transition the specification prescribes.  *)
(* The bounded models (MC*.tla) explore it over sets of calls, the trace    *)
(* specification (TraceLib) follows it along recorded calls.                *)
(***************************************************************************)
EXTENDS Id3Lib

\* calls on a handle that holds nothing are not made (the driver skips them too)
OnTag(e, A) == IF IsTag(tags[e.h]) THEN A ELSE UNCHANGED vars
OnC(e, A)   == IF IsCompat(ctags[e.c]) THEN A ELSE UNCHANGED vars

Content(f) == IF files[f].ex THEN files[f].b ELSE <<>>

\* MIME type the compatibility layer derives from a file name
Mime(name) == LET png == <<46, 112, 110, 103>> n == Len(name) IN
              IF n >= 4 /\ SubSeq(name, n - 3, n) = png
              THEN FromSeq(<<105, 109, 97, 103, 101, 47, 112, 110, 103>>)
              ELSE FromSeq(<<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>)

Queries == {"hdr", "hdrb", "get", "getn", "gets", "hold", "held", "unhold", "getcs", "getas", "getnull", "tou", "slen", "c_get", "writenull"}

Call(e) ==
    CASE e.op = "mk"        -> MakeFile(e.f, e.b)
      [] e.op = "rm"        -> RemoveFile(e.f)
      [] e.op = "newe"      -> New(e.h, 0)
      [] e.op = "new"       -> New(e.h, e.pad)
      [] e.op = "newh"      -> NewFromHeader(e.h, e.f, e.pad)
      [] e.op = "free"      -> OnTag(e, Free(e.h))
      [] e.op = "read"      -> Read(e.h, e.f)
      [] e.op = "readb"     -> ReadBytes(e.h, e.b)
      [] e.op = "readfb"    -> ReadBytes(e.h, Content(e.f))
      [] e.op = "write"     -> OnTag(e, Write(e.f, e.h))
      [] e.op = "del"       -> DeleteTag(e.f)
      [] e.op = "set_text"  -> OnTag(e, SetText(e.h, e.id, e.fl, e.text))
      [] e.op = "setn"      -> OnTag(e, SetText(e.h, NameId[e.name], Zero2, e.text))
      [] e.op = "alias"     -> OnTag(e, SetFromOwnText(e.h, NameId[e.dst], NameId[e.src]))
      [] e.op = "alias_f"   -> OnTag(e, SetFromOwnFrame(e.h, NameId[e.src]))
      [] e.op = "alias_c"   -> OnTag(e, SetFromOwnComment(e.h, e.how))
      [] e.op = "alias_a"   -> OnTag(e, SetFromOwnPicture(e.h, e.how))
      [] e.op = "set_commf" -> OnTag(e, SetCommFrame(e.h, e.fl, e.lang, e.desc, e.comm))
      [] e.op = "add_commf" -> OnTag(e, AddCommFrame(e.h, e.fl, e.lang, e.desc, e.comm))
      [] e.op = "set_comm"  -> OnTag(e, SetComment(e.h, e.lang, e.comm))
      [] e.op = "set_apicf" -> OnTag(e, SetApicFrame(e.h, e.fl, e.mime, e.desc, e.pt, e.pic))
      [] e.op = "add_apicf" -> OnTag(e, AddApicFrame(e.h, e.fl, e.mime, e.desc, e.pt, e.pic))
      [] e.op = "set_cover" -> OnTag(e, SetCover(e.h, e.mime, e.pic))
      [] e.op = "del_frame" -> OnTag(e, DeleteFrame(e.h, e.id))
      [] e.op = "deln"      -> OnTag(e, DeleteFrame(e.h, NameId[e.name]))
      [] e.op = "del_ci"    -> OnTag(e, DeleteNth(e.h, COMM, e.k))
      [] e.op = "del_ai"    -> OnTag(e, DeleteNth(e.h, APIC, e.k))
      [] e.op = "c_new"     -> CNew(e.c)
      [] e.op = "c_load"    -> CLoad(e.c, e.f)
      [] e.op = "c_loadb"   -> CLoadBytes(e.c, e.b)
      [] e.op = "c_free"    -> OnC(e, CFree(e.c))
      [] e.op = "c_set"     -> OnC(e, IF e.name = "comment" THEN CSetComment(e.c, e.text)
                                      ELSE CSetText(e.c, NameId[e.name], e.text))
      [] e.op = "c_alias"   -> OnC(e, CFromOwn(e.c, e.name))
      [] e.op = "c_coverb"  -> OnC(e, CSetCover(e.c, e.mime, e.pic))
      [] e.op = "c_cover"   -> OnC(e, IF e.absent = 1 THEN UNCHANGED vars ELSE CSetCover(e.c, Mime(e.fname), e.pic))
      [] e.op = "c_write"   -> OnC(e, CWrite(e.f, e.c))
      [] e.op = "c_del"     -> DeleteTag(e.f)
      [] e.op \in Queries   -> UNCHANGED vars

(* Where the frames of the touched tag come from: position before the call, 0 for a frame made by the call.  *)
SamePos(h) == IF IsTag(tags[h]) THEN [i \in 1..Len(tags[h].fr) |-> i] ELSE <<>>
PutPos(h, id) == LET a == tags[h].fr i == First(a, id) IN
                 IF i = 0 THEN Append(SamePos(h), 0) ELSE [SamePos(h) EXCEPT ![i] = 0]
DelPos(h, i) == IF i = 0 THEN SamePos(h)
                ELSE [j \in 1..(Len(tags[h].fr) - 1) |-> IF j < i THEN j ELSE j + 1]
Fresh == {"newe", "new", "newh", "free", "read", "readb", "readfb"}
Origin(e) ==
    IF "h" \notin DOMAIN e \/ e.op \in Fresh \/ ~IsTag(tags[e.h]) THEN <<>>
    ELSE CASE e.op = "set_text" -> PutPos(e.h, e.id)
           [] e.op = "setn" -> PutPos(e.h, NameId[e.name])
           [] e.op = "alias" -> IF ~OwnText(tags[e.h].fr, NameId[e.src]).ok THEN SamePos(e.h) ELSE PutPos(e.h, NameId[e.dst])
           [] e.op = "alias_f" -> IF ~OwnText(tags[e.h].fr, NameId[e.src]).ok THEN SamePos(e.h) ELSE PutPos(e.h, NameId[e.src])
           [] e.op = "alias_c" -> IF ~OwnComment(tags[e.h].fr).ok THEN SamePos(e.h)
                                  ELSE IF e.how = "add" THEN Append(SamePos(e.h), 0) ELSE PutPos(e.h, COMM)
           [] e.op = "alias_a" -> IF ~OwnPicture(tags[e.h].fr).ok THEN SamePos(e.h)
                                  ELSE IF e.how = "add" THEN Append(SamePos(e.h), 0) ELSE PutPos(e.h, APIC)
           [] e.op \in {"set_commf", "set_comm"} -> PutPos(e.h, COMM)
           [] e.op \in {"set_apicf", "set_cover"} -> PutPos(e.h, APIC)
           [] e.op \in {"add_commf", "add_apicf"} -> Append(SamePos(e.h), 0)
           [] e.op = "del_frame" -> DelPos(e.h, First(tags[e.h].fr, e.id))
           [] e.op = "deln" -> DelPos(e.h, First(tags[e.h].fr, NameId[e.name]))
           [] e.op = "del_ci" -> DelPos(e.h, Nth(tags[e.h].fr, COMM, e.k))
           [] e.op = "del_ai" -> DelPos(e.h, Nth(tags[e.h].fr, APIC, e.k))
           [] OTHER -> SamePos(e.h)
=============================================================================
