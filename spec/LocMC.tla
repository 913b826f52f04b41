-------------------------------- MODULE LocMC ---------------------------------
(* The location function itself, over a small universe of sources, test names and options: which calls share a file, and
   that nothing but the named inputs enters.  One state per combination. *)
EXTENDS Loc

Srcs == {"/", "/p", "/p/q"}
Bases == {"a_test", "b.c_test"}
Names == {"TestA", "TestA/x", "TestA_x", "TestB"}
Dirs == {"%default", "", ".", "rel", "/abs", "../up", "a/./b"}
Fns == {"", "f", "a_test"}
ExtsM == {"", ".txt"}
Ks == {"1", "2", "12"}

VARIABLES m, s
Init == /\ m \in Srcs \X Bases \X Dirs \X Fns \X ExtsM /\ s \in Names \X Ks
Next == UNCHANGED <<m, s>>
Spec == Init /\ [][Next]_<<m, s>>

MP == MultiPath(m[1], m[2], m[3], m[4], m[5])
SP == SoloPath(m[1], s[1], m[3], m[4], m[5], s[2])
Halves == SoloHalves(m[1], s[1], m[3], m[4], m[5])
\* an absolute directory decides alone, a relative one is under (or relative to) the source
UnderSource == /\ IsAbs(MP) /\ IsAbs(SP)
               /\ DirOf(MP) = DirOf(SP)
               /\ DirOf(MP) = (IF DirFor(m[1], m[3]) = "/" THEN "" ELSE DirFor(m[1], m[3]))
               /\ (IsAbs(m[3]) => \A src \in Srcs : MultiPath(src, m[2], m[3], m[4], m[5]) = MP)
               /\ (m[3] \in {"%default", "", ".", "rel", "a/./b"} => m[1] = "/" \/ HasPrefix(MP, m[1] \o "/"))
\* the path is the two halves around the ordinal; different ordinals are different files
Stable == /\ SP = Halves[1] \o s[2] \o Halves[2]
          /\ \A k \in Ks : k # s[2] => SoloPath(m[1], s[1], m[3], m[4], m[5], k) # SP
          /\ CleanPath(MP) = MP /\ CleanPath(SP) = SP
\* shared by tests exactly when the options (or the file) say so; a standalone file of its own per test unless Filename is set
\* or the names differ only in "/" and "_"
Separate == /\ \A t \in Names : (m[4] = "" /\ ReplaceCh(t, "/", "_") # ReplaceCh(s[1], "/", "_")) =>
                                   SoloPath(m[1], t, m[3], m[4], m[5], s[2]) # SP
            /\ \A e \in ExtsM : e # m[5] => MultiPath(m[1], m[2], m[3], m[4], e) # MP
            /\ \A b \in Bases : (m[4] # "" => MultiPath(m[1], b, m[3], m[4], m[5]) = MP) /\ (m[4] = "" /\ b # m[2] => MultiPath(m[1], b, m[3], m[4], m[5]) # MP)
=============================================================================
