------------------------- MODULE SizesLaws -------------------------
(* For Apalache: the size encodings are inverse to each other over the whole range of the format.             *)
EXTENDS Sizes
VARIABLES
  \* @type: Seq(Int);
  b,
  \* @type: Int;
  n,
  \* @type: Int;
  m

Init == n \in 0..268435455 /\ m \in 0..268435455
        /\ \E w, x, y, z \in 0..255 : b = <<w, x, y, z>>
Next == UNCHANGED <<n, m, b>>
\* @type: Seq(Int) => Bool;
BytesOf(s) == \A i \in 1..4 : s[i] \in 0..255

Inv == /\ DecSync(Sync32(n)) = n /\ SyncSafe(Sync32(n)) /\ BytesOf(Sync32(n))
       /\ DecBE(BE32(n)) = n /\ BytesOf(BE32(n))
       /\ (n # m => Sync32(n) # Sync32(m) /\ BE32(n) # BE32(m))
       /\ (SyncSafe(b) => Sync32(DecSync(b)) = b)
       /\ (DecBE(b) # TooBig => BE32(DecBE(b)) = b)
       /\ DecSync(b) <= 538984575 /\ DecBE(b) <= TooBig
       /\ (Sync32(n) = BE32(n) <=> n < 128)
====================================================================
