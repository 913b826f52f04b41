------------------------------- MODULE Config --------------------------------
(* Configs are values.  A Config is built once from options over the package defaults; every call derives the options it
   acts on from the Config it goes through and from its own API, and changes neither that Config, nor another one, nor
   the defaults.  Concurrent calls are two steps (derive, act), so a receiver that is changed and changed back shows. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Ids, MaxCalls, MutatesReceiver, MutatesDefault
Apis == {"S", "J", "Y", "SS", "SJ"}
Exts == {"", ".txt"}
Upds == {"unset", "true"}
Opts == [ext : Exts, upd : Upds]
None == [ext |-> "-", upd |-> "-"]
Procs == {1, 2}

VARIABLES cfg, built, dflt, pend, n, out
vars == <<cfg, built, dflt, pend, n, out>>

Merge(d, o) == [ext |-> IF o.ext = "" THEN d.ext ELSE o.ext, upd |-> IF o.upd = "unset" THEN d.upd ELSE o.upd]
Pristine == [ext |-> "", upd |-> "unset"]
\* what a call through options o acts on
Effective(o, api) == [ext |-> IF api = "SJ" /\ o.ext = "" THEN ".json" ELSE o.ext, upd |-> o.upd]

Init == /\ cfg = [i \in Ids |-> None] /\ built = [i \in Ids |-> None] /\ dflt = Pristine /\ pend = [p \in Procs |-> <<>>] /\ n = 0
        /\ out = <<>>
New(i, o) == /\ cfg[i] = None /\ cfg' = [cfg EXCEPT ![i] = Merge(dflt, o)] /\ built' = [built EXCEPT ![i] = Merge(Pristine, o)]
             /\ out' = <<>> /\ UNCHANGED <<dflt, pend, n>>
\* a call through Config i (0: the package-level function)
Begin(p, i, api) ==
  /\ pend[p] = <<>> /\ n < MaxCalls /\ (IF i = 0 THEN TRUE ELSE cfg[i] # None)
  /\ LET o == IF i = 0 THEN dflt ELSE cfg[i] e == Effective(o, api) IN
     /\ cfg' = IF MutatesReceiver /\ i # 0 THEN [cfg EXCEPT ![i] = e] ELSE cfg
     /\ dflt' = IF MutatesDefault /\ i = 0 THEN e ELSE dflt
     /\ pend' = [pend EXCEPT ![p] = <<i, api, e>>]
  /\ n' = n + 1 /\ out' = <<>> /\ UNCHANGED built
Finish(p) == /\ pend[p] # <<>> /\ out' = pend[p] /\ pend' = [pend EXCEPT ![p] = <<>>] /\ UNCHANGED <<cfg, built, dflt, n>>
Next == \/ \E i \in Ids, o \in Opts : New(i, o)
        \/ \E p \in Procs, i \in Ids \cup {0}, api \in Apis : Begin(p, i, api)
        \/ \E p \in Procs : Finish(p)
Spec == Init /\ [][Next]_vars

\* the Config's options are those it was built with, and every call acts on them alone
Immutable == \A i \in Ids : cfg[i] = built[i]
Defaults == dflt = Pristine
CallsByOptions == out # <<>> => out[3] = Effective(IF out[1] = 0 THEN Pristine ELSE built[out[1]], out[2])
=============================================================================
