------------------------------- MODULE MCEdit -------------------------------
(* One tag, every editing function, saving and reloading.                                                    *)
EXTENDS MCBase

Starts == { [op |-> "newe", h |-> 0], [op |-> "new", h |-> 0, pad |-> 5],
            [op |-> "readb", h |-> 0, b |-> Base3], [op |-> "readb", h |-> 0, b |-> Base4],
            [op |-> "readb", h |-> 0, b |-> Base4p] }

Start == CASE IOEnv.START = "0" -> [op |-> "newe", h |-> 0]
           [] IOEnv.START = "1" -> [op |-> "new", h |-> 0, pad |-> 5]
           [] IOEnv.START = "2" -> [op |-> "readb", h |-> 0, b |-> Base3]
           [] IOEnv.START = "3" -> [op |-> "readb", h |-> 0, b |-> Base4]
           [] IOEnv.START = "4" -> [op |-> "readb", h |-> 0, b |-> Base4p]

Edits ==
    { [op |-> "setn", h |-> 0, name |-> "title", text |-> t] : t \in {IsoA, UniBE} }
    \cup { [op |-> "setn", h |-> 0, name |-> "artist", text |-> Nothing],
           [op |-> "set_text", h |-> 0, id |-> TXXX, fl |-> <<128, 1>>, text |-> UniB],
           [op |-> "set_comm", h |-> 0, lang |-> LangZ, comm |-> IsoE],
           [op |-> "set_commf", h |-> 0, fl |-> <<0, 0>>, lang |-> English, desc |-> UniB, comm |-> IsoA],
           [op |-> "add_commf", h |-> 0, fl |-> <<32, 0>>, lang |-> English, desc |-> Nothing, comm |-> UniB],
           [op |-> "add_commf", h |-> 0, fl |-> <<0, 0>>, lang |-> English, desc |-> IsoA, comm |-> Nothing],
           [op |-> "set_cover", h |-> 0, mime |-> Png, pic |-> PicZ],
           [op |-> "set_apicf", h |-> 0, fl |-> <<0, 0>>, mime |-> Nothing, desc |-> IsoE, pt |-> 0, pic |-> Nothing],
           [op |-> "add_apicf", h |-> 0, fl |-> <<0, 2>>, mime |-> Png, desc |-> UniBE, pt |-> 255, pic |-> PicZ],
           [op |-> "alias", h |-> 0, dst |-> "title", src |-> "title"],
           [op |-> "alias", h |-> 0, dst |-> "artist", src |-> "title"],
           [op |-> "alias_c", h |-> 0, how |-> "set"], [op |-> "alias_c", h |-> 0, how |-> "add"],
           [op |-> "alias_a", h |-> 0, how |-> "set"], [op |-> "alias_a", h |-> 0, how |-> "add"],
           [op |-> "alias_f", h |-> 0, src |-> "title"],
           [op |-> "alias_c", h |-> 0, how |-> "setf"], [op |-> "alias_c", h |-> 0, how |-> "swap"],
           [op |-> "alias_a", h |-> 0, how |-> "setf"],
           [op |-> "deln", h |-> 0, name |-> "title"], [op |-> "deln", h |-> 0, name |-> "comment"],
           [op |-> "deln", h |-> 0, name |-> "cover"],
           [op |-> "del_frame", h |-> 0, id |-> PRIV], [op |-> "del_frame", h |-> 0, id |-> TXXX] }
    \cup { [op |-> o, h |-> 0, k |-> n] : o \in {"del_ci", "del_ai"}, n \in {0, 1} }

Saves == { [op |-> "write", f |-> 0, h |-> 0], [op |-> "read", h |-> 0, f |-> 0] }

Menu == CASE Len(hist) = 0 -> { [op |-> "mk", f |-> 0, b |-> Audio] }
          [] Len(hist) = 1 -> { Start }
          [] OTHER -> Edits \cup Saves

Next == \E e \in Menu : Take1(e)
Spec == MCInit /\ [][Next]_<<vars, hist>>
=============================================================================
