------------------------------ MODULE MCCompat ------------------------------
(* The compatibility layer on one tag, with its file read back through both interfaces.                       *)
EXTENDS MCBase

Starts == { [op |-> "c_new", c |-> 0], [op |-> "c_loadb", c |-> 0, b |-> Base3], [op |-> "c_loadb", c |-> 0, b |-> Base4],
            [op |-> "c_loadb", c |-> 0, b |-> ForeignTag(3, 0, 0, <<>>, <<>>, 4, FALSE)], [op |-> "c_load", c |-> 0, f |-> 3],
            [op |-> "c_loadb", c |-> 0, b |-> Audio] }

Fname == <<99, 46, 112, 110, 103>>
Ops == { [op |-> "c_set", c |-> 0, name |-> "title", text |-> IsoA], [op |-> "c_set", c |-> 0, name |-> "title", text |-> UniBE],
         [op |-> "c_set", c |-> 0, name |-> "year", text |-> Nothing], [op |-> "c_set", c |-> 0, name |-> "comment", text |-> UniB],
         [op |-> "c_set", c |-> 0, name |-> "comment", text |-> IsoE],
         [op |-> "c_alias", c |-> 0, name |-> "title"], [op |-> "c_alias", c |-> 0, name |-> "comment"],
         [op |-> "c_alias", c |-> 0, name |-> "cover"],
         [op |-> "c_coverb", c |-> 0, mime |-> Png, pic |-> PicZ],
         [op |-> "c_cover", c |-> 0, fname |-> Fname, pic |-> PicZ, absent |-> 0],
         [op |-> "c_cover", c |-> 0, fname |-> <<110, 111>>, pic |-> Nothing, absent |-> 1],
         [op |-> "c_get", c |-> 0, name |-> "title"], [op |-> "c_get", c |-> 0, name |-> "comment"],
         [op |-> "c_get", c |-> 0, name |-> "cover"], [op |-> "c_get", c |-> 0, name |-> "year"],
         [op |-> "c_write", f |-> 0, c |-> 0], [op |-> "c_load", c |-> 1, f |-> 0], [op |-> "c_get", c |-> 1, name |-> "title"],
         [op |-> "c_del", f |-> 0], [op |-> "read", h |-> 0, f |-> 0], [op |-> "c_free", c |-> 0], [op |-> "c_write", f |-> 3, c |-> 0] }

Menu == CASE Len(hist) = 0 -> { [op |-> "mk", f |-> 0, b |-> Audio], [op |-> "mk", f |-> 0, b |-> Cat(Base4, Audio)] }
          [] Len(hist) = 1 -> Starts
          [] OTHER -> Ops

Next == \E e \in Menu : Take1(e)
Spec == MCInit /\ [][Next]_<<vars, hist>>
=============================================================================
