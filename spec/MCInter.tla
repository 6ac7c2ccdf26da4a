------------------------------ MODULE MCInter -------------------------------
(* Two tags, two files and a compatibility tag in every interleaving.                                         *)
EXTENDS MCBase

OpsOf(h, t) ==
    { [op |-> "setn", h |-> h, name |-> "title", text |-> t], [op |-> "deln", h |-> h, name |-> "title"],
      [op |-> "set_comm", h |-> h, lang |-> English, comm |-> t], [op |-> "getcs", h |-> h],
      [op |-> "write", f |-> h, h |-> h], [op |-> "read", h |-> h, f |-> h], [op |-> "del", f |-> h] }
Cross == { [op |-> "write", f |-> 1, h |-> 0], [op |-> "read", h |-> 0, f |-> 1],
           [op |-> "c_set", c |-> 0, name |-> "title", text |-> IsoE], [op |-> "c_write", f |-> 0, c |-> 0], [op |-> "free", h |-> 1] }

Menu == CASE Len(hist) = 0 -> { [op |-> "mk", f |-> 0, b |-> Cat(Base3, Audio)] }
          [] Len(hist) = 1 -> { [op |-> "mk", f |-> 1, b |-> Audio] }
          [] Len(hist) = 2 -> { [op |-> "read", h |-> 0, f |-> 0], [op |-> "newe", h |-> 0] }
          [] Len(hist) = 3 -> { [op |-> "newe", h |-> 1], [op |-> "readb", h |-> 1, b |-> Base4] }
          [] Len(hist) = 4 -> { [op |-> "c_new", c |-> 0] }
          [] OTHER -> OpsOf(0, IsoA) \cup OpsOf(1, UniB) \cup Cross

Next == \E e \in Menu : Take1(e)
Spec == MCInit /\ [][Next]_<<vars, hist>>
=============================================================================
