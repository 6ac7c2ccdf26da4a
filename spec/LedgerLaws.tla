-------------------------- MODULE LedgerLaws --------------------------
(* For Apalache: one step from any balanced ledger (any sizes at all, up to MaxFrames frames) is balanced again. *)
EXTENDS Ledger, Apalache
VARIABLES
  \* @type: $ledger;
  before,
  \* @type: $ledger;
  after,
  \* @type: Int;
  least
Init == /\ before = Gen(5)
        /\ after = Gen(6)
        /\ least = Gen(1)
        /\ least >= 0
        /\ Balanced(before)
        /\ LedgerStep(least, before, after)
Next == UNCHANGED <<before, after, least>>
Inv == Balanced(after) /\ (Pad(least, before, after) => after.pad >= least /\ after.pad >= before.pad)
Twice == Pad(least, before, after) /\ before.pad >= least => after = before
\* not a law: shows that steps of every kind are reachable
NoAdd == ~AddOne(before, after)
NoDrop == ~DropOne(before, after)
NoSwap == ~(SwapOne(before, after) /\ after # before)
NoPad == ~(Pad(least, before, after) /\ after # before)
=======================================================================
