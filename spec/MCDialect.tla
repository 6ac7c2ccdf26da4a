----------------------------- MODULE MCDialect ------------------------------
(***************************************************************************)
(* Tags as any conforming writer may produce them, composed part by part.   *)
(* `want` is the composition; the invariant says that the specification's   *)
(* parser finds exactly that, so encoder and parser check each other.       *)
(***************************************************************************)
EXTENDS MCBase

VARIABLE want

\* bodies: every kind, every encoding, terminated or not, several values
Enc1 == <<255, 254, 97, 0>>
Bodies ==
    << <<TIT2, <<0>>>>, <<TIT2, <<0, 97>>>>, <<TIT2, <<0, 97, 0>>>>, <<TIT2, <<0, 97, 0, 98, 0, 0>>>>,
       <<TIT2, <<1>> \o Enc1>>, <<TPE1, <<1>> \o Enc1 \o <<0, 0>>>>, <<TPE1, <<1>> \o Enc1 \o <<0, 0>> \o Enc1>>,
       <<TIT2, <<1, 254, 255, 0, 97, 1, 0, 0, 0>>>>, <<TIT2, <<2, 0, 97, 1, 0>>>>, <<TPE1, <<2, 0, 97, 0, 0>>>>, <<TIT2, <<3, 195, 169>>>>,
       <<TXXX, <<0, 100, 0, 118>>>>, <<TXXX, <<1>> \o Enc1 \o <<0, 0>> \o Enc1 \o <<0, 0>>>>,
       <<COMM, <<0, 101, 110, 103, 0>>>>, <<COMM, <<0, 101, 110, 103, 100, 0, 99, 0>>>>, <<COMM, <<0, 0, 0, 0, 0, 99>>>>,
       <<COMM, <<1, 101, 110, 103>> \o Enc1 \o <<0, 0>> \o Enc1>>, <<COMM, <<1, 101, 110, 103, 255, 254, 0, 0, 255, 254, 0, 0>>>>,
       <<COMM, <<1, 120, 120, 120, 254, 255, 1, 0, 0, 0, 254, 255, 0, 1>>>>, <<COMM, <<2, 101, 110, 103, 0, 97, 0, 0, 1, 0>>>>,
       <<COMM, <<3, 101, 110, 103, 195, 169, 0, 195, 169>>>>,
       <<APIC, <<0, 0, 3, 0>>>>, <<APIC, <<0, 105, 47, 112, 0, 0, 100, 0, 0, 0, 255>>>>, <<APIC, <<1, 105, 0, 3, 255, 254, 100, 0, 0, 0, 0, 1>>>>,
       <<APIC, <<1, 105, 0, 4, 255, 254, 0, 0, 73, 68, 51>>>>, <<APIC, <<2, 0, 20, 1, 0, 0, 1, 0, 0>>>>, <<APIC, <<3, 45, 45, 62, 0, 255, 195, 169, 0, 7>>>>,
       <<PRIV, <<0>>>>, <<PRIV, <<111, 0, 0>>>>, <<COMR, <<0, 101>>>>, <<AENC, <<1, 0, 3, 0>>>>, <<<<90, 48, 57, 88>>, <<9, 9, 9>>>>,
       \* plain strings that begin like a byte order mark
       <<APIC, <<0, 255, 254, 65, 0, 3, 100, 0, 1, 2>>>>, <<APIC, <<1, 254, 255, 0, 3, 255, 254, 0, 0, 9>>>>, <<TIT2, <<0, 255, 254, 65>>>>,
       <<COMM, <<0, 101, 110, 103, 255, 254, 65, 0, 254, 255, 66>>>>, <<APIC, <<0, 105, 0, 3, 255, 254, 65, 0, 5>>>> >>

Flags == << <<0, 0>>, <<64, 0>>, <<224, 0>>, <<128, 0>> >>
FrameNo(i, k) == Frame(Bodies[i][1], Flags[(k % Len(Flags)) + 1], B(Bodies[i][2]))
\* 130 bytes: the size field differs between plain and synchsafe
Long == Frame(PRIV, <<0, 0>>, Rep(7, 200))
LongT == Frame(TPE1, <<0, 0>>, Cat(Rep(0, 1), Rep(65, 127)))

NB == Len(Bodies)
Singles == { << FrameNo(i, i) >> : i \in 1..NB }
Pairs == { << FrameNo(i, j), FrameNo(j, i) >> : i \in 1..NB, j \in 1..NB }
Extra == { <<>>, << Long >>, << LongT, FrameNo(2, 0) >>, << FrameNo(15, 0), Long, FrameNo(28, 1) >>,
           [i \in 1..12 |-> FrameNo(((i * 7) % NB) + 1, i)] }

Ext(ver) == IF ver = 3 THEN { B(<<0, 0, 0, 6, 0, 0, 0, 0, 0, 0>>), B(<<0, 0, 0, 10, 128, 0, 0, 0, 0, 0, 1, 2, 3, 4>>) }
            ELSE { B(<<0, 0, 0, 6, 1, 0>>), B(<<0, 0, 0, 12, 1, 32, 5, 1, 2, 3, 4, 5>>) }

\* [ver, hfl, ext, fs, pad, foot]
Plain3(S, pads) == { [ver |-> v, hfl |-> 0, ext |-> <<>>, fs |-> s, pad |-> p, foot |-> FALSE] : v \in {3, 4}, s \in S, p \in pads }
Exts(S, pads)  == UNION { { [ver |-> v, hfl |-> 64, ext |-> x, fs |-> s, pad |-> p, foot |-> FALSE] : x \in Ext(v), s \in S, p \in pads } : v \in {3, 4} }
Feet(S) == { [ver |-> 4, hfl |-> 16, ext |-> <<>>, fs |-> s, pad |-> 0, foot |-> TRUE] : s \in S }
           \cup { [ver |-> 4, hfl |-> 80, ext |-> x, fs |-> s, pad |-> 0, foot |-> TRUE] : x \in Ext(4), s \in S }

Few == { << FrameNo(i, 0) >> : i \in {3, 17, 24, 28} } \cup Extra
Dialects ==
    Plain3(Singles \cup Extra, {0, 1, 9, 10, 11, 300}) \cup Plain3(Pairs, {0}) \cup Exts(Singles \cup Extra, {0, 11})
    \cup Feet(Singles \cup Extra) \cup (IF IOEnv.WIDE = "1" THEN Plain3(Pairs, {10}) \cup Exts(Pairs, {0}) \cup Feet(Pairs) ELSE {})

Bytes(d) == ForeignTag(d.ver, 0, d.hfl, d.ext, d.fs, d.pad, d.foot)

Tails == << <<>>, Audio, B(<<73, 68, 51, 3, 0, 0, 0, 0, 0, 0>>) >>

(* Step 1: a file with the tag and something behind it, or a buffer.  Step 2: read.  Step 3: one edit.  Step 4: save, 5: read. *)
\* the dialects can be dealt out to several runs
Mine(d) == LET n == atoi(IOEnv.PARTS) IN (BLen(Bytes(d)) + d.ver + d.hfl) % n = atoi(IOEnv.PART)
Compose == \E d \in Dialects : \E i \in {1, 2} : Mine(d) /\
    LET b == Cat(Bytes(d), Tails[((Len(d.fs) + d.pad) % 3) + 1])
        e == IF i = 1 THEN [op |-> "mk", f |-> 0, b |-> b] ELSE [op |-> "readb", h |-> 0, b |-> b]
    IN Take1(e) /\ want' = [ver |-> d.ver, fs |-> d.fs, pad |-> d.pad + BLen(d.ext), b |-> b]
Then == CASE Len(hist) = 1 -> { [op |-> "read", h |-> 0, f |-> 0] }
          [] Len(hist) = 2 -> { [op |-> "deln", h |-> 0, name |-> "artist"], [op |-> "setn", h |-> 0, name |-> "title", text |-> IsoA] }
          [] Len(hist) = 3 -> { [op |-> "write", f |-> 0, h |-> 0] }
          [] OTHER -> { [op |-> "read", h |-> 1, f |-> 0] }

Next == \/ hist = <<>> /\ Compose
        \/ hist # <<>> /\ hist[1].op = "mk" /\ UNCHANGED want /\ \E e \in Then : Take1(e)
DInit == MCInit /\ want = [fs |-> <<>>]
Spec == DInit /\ [][Next]_<<vars, hist, want>>
DView == <<vars, want, Len(hist)>>

\* the parser finds what was composed
ParsesAsComposed ==
    (hist # <<>> /\ "ver" \in DOMAIN want) =>
        LET p == TagOf(want.b) IN
        p.ok /\ p.conf /\ p.ver = want.ver /\ p.fr = want.fs /\ p.tsz = FramesLen(want.fs) + want.pad
\* every frame is still in the file after an edit and a save, the edited one excepted
KeepsTheOthers ==
    (Len(hist) = 4) =>
        LET touched == IF hist[3].op = "deln" THEN TPE1 ELSE TIT2
            i == First(want.fs, touched)
            p == TagOf(files[0].b)
            old == IF i = 0 THEN want.fs ELSE SubSeq(want.fs, 1, i - 1) \o SubSeq(want.fs, i + 1, Len(want.fs))
            new == IF hist[3].op = "deln" THEN p.fr
                   ELSE LET j == IF i = 0 THEN Len(p.fr) ELSE i IN SubSeq(p.fr, 1, j - 1) \o SubSeq(p.fr, j + 1, Len(p.fr))
        IN new = old
=============================================================================
