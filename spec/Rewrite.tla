------------------------------ MODULE Rewrite -------------------------------
(***************************************************************************)
(* Design of write and delete at the level of file operations, with any     *)
(* operation failing at any point.  Contents are sequences of blocks: the   *)
(* old tag, the new tag (absent for delete) and the audio.  The new content *)
(* is staged in a temporary file; the target is opened for rewriting only   *)
(* when nothing failed before.                                              *)
(*                                                                          *)
(* Ignore is the set of operations whose failure the design would overlook: *)
(* {} is the library's design; each other value is a broken design for      *)
(* which the same invariants must fail (they are not vacuous).              *)
(***************************************************************************)
EXTENDS FileContract, Sequences, IOUtils

VARIABLES pc, temp, pos, failed, budget,
          from              \* where copying of the target starts: "rest" after the old tag, "start" of the file, "mid" of the tag

rvars == <<cvars, pc, temp, pos, failed, budget, from>>

MaxOld == 2
MaxNew == 2
MaxAudio == 3
Faults == 2

Ignore == IF IOEnv.IGNORE = "none" THEN {} ELSE {IOEnv.IGNORE}

Blocks(name, n) == [i \in 1..n |-> <<name, i>>]

RInit == /\ CInit
         /\ \E o \in 0..MaxOld, n \in 0..MaxNew, a \in 0..MaxAudio :
               /\ old = [tag |-> Blocks("old", o), rest |-> Blocks("audio", a)]
               /\ new = [tag |-> Blocks("new", n), rest |-> Blocks("audio", a)]
         /\ target = old
         /\ pc = "begin" /\ temp = <<>> /\ pos = 0 /\ failed = FALSE /\ budget = Faults /\ from = "mid"

\* one file operation: ok or, while the budget lasts, failing
Op(name, ok, bad) ==
    \/ ok
    \/ /\ budget > 0 /\ budget' = budget - 1 /\ bad
Next1(n) == pc' = n
Keep == UNCHANGED <<old, new>>

\* handles: target for reading (1), temp (1)
Begin == pc = "begin" /\ phase = "idle" /\ phase' = "collect" /\ Next1("open")
         /\ UNCHANGED <<fault, open, target, temp, pos, failed, budget, from>> /\ Keep

Good(n, o) == Next1(n) /\ open' = o /\ UNCHANGED <<phase, fault, target, temp, pos, failed, budget, from>> /\ Keep
FailTo(n, f) == Next1(n) /\ fault' = Fails /\ failed' = f /\ UNCHANGED <<phase, open, target, temp, pos, from>> /\ Keep
\* a failure that is noticed unless the design overlooks it
Notice(name) == failed \/ name \notin Ignore

OpenTarget == pc = "open" /\ Op("open", Good("temp", 1), FailTo("return", TRUE))
MakeTemp == pc = "temp" /\ Op("temp", Good("header", 2), FailTo("close1", TRUE))
\* without the header the length of the old tag counts as zero
ReadHeader == pc = "header" /\ Op("header",
                /\ Next1("tag") /\ from' = "rest" /\ UNCHANGED <<phase, fault, open, target, temp, pos, failed, budget>> /\ Keep,
                /\ Next1("tag") /\ from' = "start" /\ fault' = Fails /\ failed' = Notice("header")
                /\ UNCHANGED <<phase, open, target, temp, pos>> /\ Keep)
WriteTag ==
    /\ pc = "tag"
    /\ IF Len(temp) = Len(new.tag)
       THEN Good("seek", open)
       ELSE Op("tag",
               /\ Next1("tag") /\ temp' = Append(temp, new.tag[Len(temp) + 1])
               /\ UNCHANGED <<phase, fault, open, target, pos, failed, budget, from>> /\ Keep,
               FailTo("seek", Notice("tag")))
Seek == pc = "seek" /\ Op("seek",
                Good("copy", open),
                /\ Next1("copy") /\ from' = "mid" /\ fault' = Fails /\ failed' = Notice("seek")
                /\ UNCHANGED <<phase, open, target, temp, pos>> /\ Keep)
\* where the position was not set the file is read on behind its header, inside the old tag
Source == CASE from = "rest" -> old.rest
            [] from = "start" -> old.tag \o old.rest
            [] from = "mid" -> IF old.tag = <<>> THEN (IF old.rest = <<>> THEN <<>> ELSE Tail(old.rest))
                               ELSE <<old.tag[Len(old.tag)]>> \o old.rest
Copy ==
    /\ pc = "copy"
    /\ IF pos = Len(Source) THEN Good("flush", open)
       ELSE \/ /\ Next1("copy") /\ temp' = Append(temp, Source[pos + 1]) /\ pos' = pos + 1
               /\ UNCHANGED <<phase, fault, open, target, failed, budget, from>> /\ Keep
            \/ budget > 0 /\ budget' = budget - 1 /\ FailTo("flush", Notice("read"))      \* reading the target ends early
            \/ budget > 0 /\ budget' = budget - 1 /\ Next1("copy") /\ fault' = Fails /\ failed' = Notice("stage")
               /\ pos' = pos + 1 /\ UNCHANGED <<phase, open, target, temp, from>> /\ Keep    \* staging this block fails
Flush == pc = "flush" /\ Op("flush", Good("rewind", open),
               /\ Next1("rewind") /\ fault' = Fails /\ failed' = Notice("flush")
               /\ temp' = SubSeq(temp, 1, Len(temp) \div 2) /\ UNCHANGED <<phase, open, target, pos, from>> /\ Keep)
\* a temp file that cannot be rewound is read from its end
Rewind == pc = "rewind" /\ Op("rewind", Good("decide", open),
               /\ Next1("decide") /\ fault' = Fails /\ failed' = Notice("rewind")
               /\ temp' = (IF Notice("rewind") THEN temp ELSE <<>>) /\ UNCHANGED <<phase, open, target, pos, from>> /\ Keep)
Decide == pc = "decide" /\ (IF failed THEN Good("close2", open - 1) ELSE Good("reopen", open - 1))
\* close2: only the temp file is left to close
Reopen == pc = "reopen"
          /\ Op("reopen",
                /\ Next1("back") /\ phase' = "rewrite" /\ target' = [tag |-> <<>>, rest |-> <<>>] /\ open' = open + 1 /\ pos' = 1
                /\ UNCHANGED <<fault, temp, failed, budget, from>> /\ Keep,
                FailTo("close2", TRUE))
Cut(q) == LET n == Len(new.tag) IN
          IF Len(q) <= n THEN [tag |-> q, rest |-> <<>>] ELSE [tag |-> SubSeq(q, 1, n), rest |-> SubSeq(q, n + 1, Len(q))]
Back ==
    /\ pc = "back"
    /\ IF pos > Len(temp) THEN Good("close3", open)
       ELSE Op("back",
               /\ Next1("back") /\ target' = Cut(SubSeq(temp, 1, pos)) /\ pos' = pos + 1
               /\ UNCHANGED <<phase, fault, open, temp, failed, budget, from>> /\ Keep,
               FailTo("close3", failed))
Close1 == pc = "close1" /\ Good("return", open - 1)
Close2 == pc = "close2" /\ Good("return", open - 1)
Close3 == pc = "close3" /\ Good("return", open - 2)
Ret == /\ pc = "return" /\ pc' = "end" /\ phase' = "done"
       /\ UNCHANGED <<fault, open, old, new, target, temp, pos, failed, budget, from>>

RNext == \/ Begin \/ OpenTarget \/ MakeTemp \/ ReadHeader \/ WriteTag \/ Seek \/ Copy \/ Flush \/ Rewind
         \/ Decide \/ Reopen \/ Back \/ Close1 \/ Close2 \/ Close3 \/ Ret
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)

\* C12
Intact == phase = "done" => IF fault = "none" THEN target = new
                            ELSE fault = "early" => target \in {old, new}
\* C10: no handle survives the call, on any path
Closed == phase = "done" => open = 0
\* the target is untouched as long as the call collects
Untouched == phase \in {"idle", "collect"} => target = old
\* the call returns
Returns == <>(phase = "done")

\* the contract seen from the design (the initial step of the contract has already chosen old and new)
Refines == [][ \/ pc = "begin"
               \/ CNext ]_cvars
=============================================================================
