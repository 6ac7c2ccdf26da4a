---------------------------- MODULE FileContract ----------------------------
(***************************************************************************)
(* What a call that rewrites a file (write or delete a tag) owes its caller *)
(* when file operations fail.  A call collects the new content, then        *)
(* rewrites the target; `fault` says whether an operation failed and in     *)
(* which of the two phases.  The step-level design (Rewrite.tla) is checked *)
(* to refine this module, and recorded system calls of the real code        *)
(* (FaultTrace.tla) are checked against its actions.                        *)
(***************************************************************************)
EXTENDS Naturals

VARIABLES phase,    \* "idle", "collect", "rewrite", "done"
          fault,    \* "none", "early" (while collecting), "late" (after the target was first modified)
          open,     \* file handles the call holds
          old,      \* the target before the call
          new,      \* the target after the same call without faults
          target    \* the target now

cvars == <<phase, fault, open, old, new, target>>

CInit == phase = "idle" /\ fault = "none" /\ open = 0

Start(o, n) == /\ phase \in {"idle", "done"}
               /\ phase' = "collect" /\ fault' = "none" /\ open' = 0 /\ old' = o /\ new' = n /\ target' = o

\* an operation that leaves the target alone, successful or failing
Fails == IF phase = "collect" THEN (IF fault = "none" THEN "early" ELSE fault) ELSE "late"
Acquire(n) == phase \in {"collect", "rewrite"} /\ open' = open + n /\ UNCHANGED <<phase, fault, old, new, target>>
Release(n) == phase \in {"collect", "rewrite"} /\ open >= n /\ open' = open - n /\ UNCHANGED <<phase, fault, old, new, target>>
Operate    == phase \in {"collect", "rewrite"} /\ UNCHANGED cvars
Fail(n)    == phase \in {"collect", "rewrite"} /\ open >= n /\ open' = open - n /\ fault' = Fails /\ UNCHANGED <<phase, old, new, target>>
\* an operation that modifies the target (opening it truncated, writing to it, renaming over it)
Modify(n)  == phase \in {"collect", "rewrite"} /\ phase' = "rewrite" /\ open' = open + n /\ UNCHANGED <<fault, old, new>>

\* the content the target may have when the call returns
May(t) == CASE fault = "none"  -> t = new
            [] fault = "early" -> t = old \/ t = new
            [] fault = "late"  -> TRUE
Return == phase \in {"collect", "rewrite"} /\ phase' = "done" /\ May(target) /\ open = 0 /\ UNCHANGED <<fault, open, old, new, target>>

CNext == \/ \E n \in 0..2 : Acquire(n) \/ Release(n) \/ Fail(n) \/ Modify(n)
         \/ Operate \/ Return
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
