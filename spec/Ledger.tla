---------------------------- MODULE Ledger ----------------------------
(***************************************************************************)
(* The size bookkeeping of one tag, as numbers: the lengths of its frames   *)
(* (with their headers), its padding and its size.  A step touches one      *)
(* frame and adjusts the size by the difference, or raises the padding, as  *)
(* the library does; it never adds everything up again.  LedgerLaws shows   *)
(* for all lengths that the sum stays exact, and TLC that every step of     *)
(* Id3Lib is such a step.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* @typeAlias: ledger = { ln: Seq(Int), pad: Int, tsz: Int };
LedgerAliases == TRUE

\* @type: Seq(Int) => Int;
Total(ln) == LET \* @type: (Int, Int) => Int;
                 Plus(a, b) == a + b IN FoldLeft(Plus, 0, ln)

\* @type: $ledger => Bool;
Balanced(a) == /\ a.tsz = Total(a.ln) + a.pad
               /\ a.pad >= 0
               /\ \A i \in DOMAIN a.ln : a.ln[i] >= 10

\* @type: ($ledger, $ledger) => Bool;
Keep(a, b) == a = b
\* @type: ($ledger, $ledger) => Bool;
AddOne(a, b) == /\ Len(b.ln) = Len(a.ln) + 1
                /\ \A i \in DOMAIN a.ln : b.ln[i] = a.ln[i]
                /\ b.ln[Len(b.ln)] >= 10
                /\ b.pad = a.pad
                /\ b.tsz = a.tsz + b.ln[Len(b.ln)]
\* @type: ($ledger, $ledger) => Bool;
SwapOne(a, b) == \E k \in DOMAIN a.ln :
                /\ Len(b.ln) = Len(a.ln)
                /\ \A i \in DOMAIN a.ln : i # k => b.ln[i] = a.ln[i]
                /\ b.ln[k] >= 10
                /\ b.pad = a.pad
                /\ b.tsz = a.tsz + (b.ln[k] - a.ln[k])
\* @type: ($ledger, $ledger) => Bool;
DropOne(a, b) == \E k \in DOMAIN a.ln :
                /\ Len(b.ln) = Len(a.ln) - 1
                /\ \A i \in DOMAIN b.ln : b.ln[i] = IF i < k THEN a.ln[i] ELSE a.ln[i + 1]
                /\ b.pad = a.pad
                /\ b.tsz = a.tsz - a.ln[k]
\* @type: (Int, $ledger, $ledger) => Bool;
Pad(least, a, b) == /\ b.ln = a.ln
                    /\ b.pad = (IF a.pad < least THEN least ELSE a.pad)
                    /\ b.tsz = a.tsz + (IF a.pad < least THEN least - a.pad ELSE 0)
\* @type: (Int, $ledger, $ledger) => Bool;
LedgerStep(least, a, b) == Keep(a, b) \/ AddOne(a, b) \/ SwapOne(a, b) \/ DropOne(a, b) \/ Pad(least, a, b)
=======================================================================
