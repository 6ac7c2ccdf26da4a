----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* Recorded system calls of one library call, without and with injected     *)
(* failures, against FileContract.  A scenario is a sequence of calls (they *)
(* follow Id3Calls and give the target's old content), then runs of its     *)
(* last call from the same state: run 0 without fault, the others with one  *)
(* fault position each.  `new` is what run 0 left in the target: whether    *)
(* that is the right tag and audio is decided by other properties.          *)
(***************************************************************************)
EXTENDS Id3Calls, FileContract, Ledger, Json, IOUtils, FiniteSets

VARIABLES l, dead, the, no

fvars == <<cvars, l, dead, the, no>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Relevant == [ C12 |-> {"return", "file", "memory", "retry"}, C10 |-> {"fds", "live"}, ALL |-> {"return", "file", "fds", "live", "spec", "memory", "retry"} ]

Ev == Trace[l]
Is(op) == Ev.op = op
Count(k) == TLCSet(k, TLCGet(k) + 1)

Report(bad) ==
    LET r == bad \cap Relevant[Prop] IN
    IF r = {} THEN TRUE
    ELSE PrintT("MISMATCH " \o ToJson([s |-> Ev.s, i |-> no, op |-> the.op, fault |-> fault, groups |-> SetToSeq(r)]))

Seen(o) == [ex |-> o.ex = 1, b |-> o.b]

\* the tag a write was asked to save, after the call: the frames as before, the books balanced; saved again without faults
\* it is what it would have been at once
Memory(m) == \/ m.has = 0
             \/ m.same = 1 /\ Balanced([ln |-> [i \in 1..Len(m.sz) |-> m.sz[i] + 10], pad |-> m.pad, tsz |-> m.tsz])
Kept(m, t2, n) == (IF Memory(m) THEN {} ELSE {"memory"}) \cup (IF m.has = 0 \/ fault = "late" \/ t2 = n THEN {} ELSE {"retry"})

Begin == /\ tags' = [s \in Slots |-> NoTag] /\ ctags' = [s \in Slots |-> NoTag] /\ files' = [s \in Slots |-> NoFile]
         /\ phase' = "idle" /\ fault' = "none" /\ open' = 0 /\ old' = NoFile /\ new' = NoFile /\ target' = NoFile
         /\ dead' = FALSE /\ the' = [op |-> "none"] /\ no' = 0

Prefix == Call(Ev) /\ UNCHANGED <<cvars, dead, the, no>>

TheCall == /\ the' = Ev.call /\ UNCHANGED <<vars, cvars, dead, no>>

BeginRun == /\ LET o == files[the.f] IN Start(o, IF Ev.no = 0 THEN o ELSE new)
            /\ no' = Ev.no /\ UNCHANGED <<vars, dead, the>>

\* system calls, runs of equal ones folded into one line of n
Io == /\ CASE Ev.inj = 1 -> Fail(IF Ev.k = "c" /\ open >= Ev.n THEN Ev.n ELSE 0) /\ Count(1)
           [] Ev.ok = 0 -> Operate
           [] Ev.mod = 1 -> /\ Modify(IF Ev.k = "o" THEN Ev.n ELSE 0) /\ UNCHANGED target
           [] Ev.k \in {"o", "d"} -> Acquire(Ev.n)
           [] Ev.k = "c" -> Release(IF open >= Ev.n THEN Ev.n ELSE open)
           [] OTHER -> Operate
      /\ UNCHANGED <<vars, dead, the, no>>

Finish ==
    /\ UNCHANGED <<vars, fault, open, old, the, no>>
    /\ phase' = "done" /\ target' = Seen(Ev.t)
    /\ IF no = 0
       THEN /\ new' = target'
            /\ dead' = (Ev.ret # 1)                           \* a call that fails without faults is not this property's matter
            /\ Report(IF Ev.ret # 1 THEN {} ELSE (IF open # 0 THEN {"fds"} ELSE {}) \cup (IF Ev.live # 0 THEN {"live"} ELSE {})
                                                 \cup Kept(Ev.m, Seen(Ev.t2), target'))
       ELSE /\ UNCHANGED <<new, dead>>
            /\ (fault = "early" => Count(2))
            /\ (fault = "early" /\ target' = new /\ new # old => Count(3))
            /\ (fault = "early" /\ target' = old /\ new # old => Count(4))
            /\ Report(IF Ev.ret # 1 THEN {"return"} \cup (IF May(Seen(Ev.t)) THEN {} ELSE {"file"})
                      ELSE (IF May(Seen(Ev.t)) THEN {} ELSE {"file"})
                           \cup (IF open # 0 THEN {"fds"} ELSE {}) \cup (IF Ev.live # 0 THEN {"live"} ELSE {})
                           \cup Kept(Ev.m, Seen(Ev.t2), new))

TInit == Init /\ CInit /\ old = NoFile /\ new = NoFile /\ target = NoFile /\ l = 1 /\ dead = FALSE /\ the = [op |-> "none"] /\ no = 0
         /\ \A k \in 1..4 : TLCSet(k, 0)
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ IF Is("S") THEN Begin
            ELSE IF Is("crash") THEN dead' = TRUE /\ UNCHANGED <<vars, cvars, the, no>>
            ELSE IF dead THEN UNCHANGED <<vars, cvars, dead, the, no>>
            ELSE IF Is("call") THEN TheCall
            ELSE IF Is("run") THEN BeginRun
            ELSE IF Is("io") THEN Io
            ELSE IF Is("ret") THEN Finish
            ELSE Prefix
TSpec == TInit /\ [][TNext]_<<vars, fvars>>

Accepted == /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Trace)))
            /\ PrintT("COUNTS " \o ToJson([injected |-> TLCGet(1), early |-> TLCGet(2), complete |-> TLCGet(3), kept |-> TLCGet(4)]))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
