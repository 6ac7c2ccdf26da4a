------------------------------- MODULE MCFile -------------------------------
(* One file through writes, deletes, reads and header reads, from every kind of initial content.              *)
EXTENDS MCBase

Small3 == ForeignTag(3, 0, 0, <<>>, << FTit >>, 0, FALSE)
Small4 == ForeignTag(4, 1, 16, <<>>, << FPri >>, 0, TRUE)
Ext3   == ForeignTag(3, 0, 64, B(<<0, 0, 0, 6, 0, 0, 0, 0, 0, 0>>), << FComr >>, 12, FALSE)
Contents ==
    << Nothing, B(<<73, 68, 51>>), B(<<0>>), Audio, B(<<73, 68, 51, 2, 0, 0, 0, 0, 0, 1, 9>>), Cat(Small3, Audio), Cat(Small4, Audio),
       Cat(Ext3, Audio), Small4, Cat(Cat(Base4p, Small3), Audio), Take(Base3, 40), Cat(Base3, B(<<0, 0, 0>>)),
       Cat(Small4, B(<<51, 68, 73, 4, 0, 16, 0, 0, 0, 0>>)) >>

Starts == { [op |-> "mk", f |-> 0, b |-> Contents[i]] : i \in 1..Len(Contents) } \cup { [op |-> "rm", f |-> 0] }
Tags0  == { [op |-> "newe", h |-> 0], [op |-> "read", h |-> 0, f |-> 0], [op |-> "newh", h |-> 0, f |-> 0, pad |-> 0] }

Ops == { [op |-> "write", f |-> 0, h |-> 0], [op |-> "del", f |-> 0], [op |-> "read", h |-> 0, f |-> 0],
         [op |-> "setn", h |-> 0, name |-> "title", text |-> UniB], [op |-> "deln", h |-> 0, name |-> "title"],
         [op |-> "hdr", f |-> 0], [op |-> "writenull", f |-> 0], [op |-> "readfb", h |-> 1, f |-> 0], [op |-> "read", h |-> 1, f |-> 0],
         [op |-> "write", f |-> 0, h |-> 1], [op |-> "rm", f |-> 0] }

Menu == CASE Len(hist) = 0 -> Starts
          [] Len(hist) = 1 -> Tags0
          [] OTHER -> Ops

Next == \E e \in Menu : Take1(e)
Spec == MCInit /\ [][Next]_<<vars, hist>>
=============================================================================
