------------------------------- MODULE SnapsMC --------------------------------
(* Explores Snaps: several processes in a row, each in its own mode, over values whose lines are the dangerous ones.
   `store` is a ghost: what every slot has to replay as, maintained from the meaning of the calls alone (it never looks
   at file content).  The properties compare the files with it.

   The same module generates behaviours for replay (Record = TRUE): hist is the script of the behaviour. *)
EXTENDS Snaps, Json

CONSTANTS Tests, Vals, Upds, Envs, Runs, MaxProcs, MaxCalls, MaxOps, Solo, Sorting, Skipping, CIs, Bads, Plants, Record

VARIABLES store, np, nc, phase, hist, last
gvars == <<store, np, nc, phase, hist, last>>
mcvars == <<svars, gvars>>

MFile == "/s/m.snap"
Call(t, solo, kind, val, upd) ==
  [t |-> t, solo |-> solo, key |-> IF solo THEN <<"/s/" \o t \o "_", ".snap">> ELSE <<MFile>>,
   path |-> IF solo THEN <<"/s/" \o ReplaceCh(t, "/", "_") \o "_", ".snap">> ELSE <<MFile>>, kind |-> kind, val |-> val, upd |-> upd]

Rec(o) == hist' = IF Record THEN Append(hist, o) ELSE hist

MInit == /\ \E d \in Plants : SInit(d) /\ store = <<>> /\ np = 0 /\ nc = 0 /\ phase = "idle" /\ hist = <<>> /\ last = <<>>

MStart == /\ phase = "idle" /\ np < MaxProcs
          /\ \E ci \in CIs, env \in Envs, run \in Runs :
               /\ StartProc(ci, env, run)
               /\ Rec([op |-> "start", ci |-> ci, env |-> env, run |-> run])
          /\ np' = np + 1 /\ nc' = 0 /\ phase' = "run" /\ UNCHANGED <<store, last>>

\* the slot a call addresses, and what it holds
Slot(c) == <<IF c.solo THEN c.path[1] \o ToString(Ordinal(c)) \o c.path[2] ELSE MFile, c.t, Ordinal(c)>>

MMatch ==
  /\ phase = "run" /\ nc < MaxOps
  /\ \E t \in {x \in Tests : Selected(proc.run, x) /\ ~SkipProtected(x)} :
     \E solo \in (IF Solo THEN BOOLEAN ELSE {FALSE}) : \E kind \in {"val"} \cup Bads : \E val \in Vals : \E upd \in Upds :
       /\ kind = "bad" => val = CHOOSE v \in Vals : TRUE
       /\ \E c \in {Call(t, solo, kind, val, upd)} :
          /\ Ordinal(c) <= MaxCalls
          /\ Match(c)
          /\ last' = c
          /\ store' = IF out'.outc \in {"added", "updated"} THEN Put(store, Slot(c), val) ELSE store
          /\ Rec([op |-> "match", t |-> t, solo |-> solo, kind |-> kind, val |-> val, upd |-> upd])
  /\ nc' = nc + 1 /\ UNCHANGED <<np, phase>>

MEnd == /\ phase = "run" /\ nc < MaxOps
        /\ \E t \in Tests : /\ \E x \in DOMAIN running : x[2] = t
                            /\ EndTest(t) /\ Rec([op |-> "end", t |-> t])
        /\ UNCHANGED <<store, np, nc, phase, last>>

MSkip == /\ phase = "run" /\ nc < MaxOps /\ Skipping
         /\ \E t \in Tests : /\ Selected(proc.run, t) /\ ~SkipProtected(t) /\ \A x \in DOMAIN running : x[2] # t
                             /\ SkipTest(t) /\ Rec([op |-> "skip", t |-> t])
         /\ nc' = nc + 1 /\ UNCHANGED <<store, np, phase, last>>

StoreStale == {s \in DOMAIN store : \/ s[1] = MFile /\ MFile \in UsedFiles /\ s \notin addr /\ ~Protected(s[2])
                                    \/ s[1] # MFile /\ s[1] \in FileMay
                                    \/ s[1] = MFile /\ MFile \in FileMay}
MClean == /\ phase \in {"run", "cleaned"} /\ nc > 0
          /\ \E sort \in Sorting :
               /\ Clean(sort, Stale)
               /\ Rec([op |-> "clean", sort |-> sort])
          /\ store' = IF Deletes(proc) THEN Without(store, StoreStale) ELSE store
          /\ phase' = (IF phase = "run" THEN "cleaned" ELSE "done") /\ UNCHANGED <<np, nc, last>>

MExit == /\ phase \in {"run", "cleaned", "done"} /\ nc > 0 /\ ExitProc /\ phase' = "idle"
         /\ Rec([op |-> "exit"]) /\ UNCHANGED <<store, np, nc, last>>

MNext == MStart \/ MMatch \/ MEnd \/ MSkip \/ MClean \/ MExit
MSpec == MInit /\ [][MNext]_mcvars
View == <<disk, proc, running, addr, saddr, {skips[i] : i \in 1..Len(skips)}, store, np, nc, phase, out>>

\* ------------------------------------------------------------------ properties
SlotsOf(p) == {s \in DOMAIN store : s[1] = p}
\* the files hold exactly the slots, once each, in well-formed entries that replay the stored value  (C01, C03, C06, C10)
FileIsStore ==
  /\ DOMAIN disk = {s[1] : s \in DOMAIN store} \cup {p \in DOMAIN disk : Entries(disk[p]) = <<>> /\ p = MFile}
  /\ MFile \in DOMAIN disk =>
       LET L == disk[MFile] es == Entries(L) IN
       /\ Len(es) = Cardinality(SlotsOf(MFile))
       /\ \A s \in SlotsOf(MFile) : LET i == FindIn(es, Header(s[2], s[3]), 1) IN i # 0 /\ Unescape(Body(L, es[i])) = store[s]
       /\ L = RenderFile(EntryList(L))      \* nothing but entries
  /\ \A s \in DOMAIN store : s[1] # MFile => disk[s[1]] = store[s]

\* outcome of a call, from the ghost alone  (C01, C02, C04, C05, C17, C19)
NoVal == <<"%none">>
HeldBy(c) == At(store, Slot(c), NoVal)
Right(c) == IF c.kind = "bad" THEN "failed"
            ELSE IF HeldBy(c) = c.val THEN "passed"
            ELSE IF HeldBy(c) = NoVal THEN IF ~proc.ci /\ c.upd \in {"unset", "true"} THEN "added" ELSE "failed"
            ELSE IF ~proc.ci /\ (c.upd = "true" \/ (c.upd = "unset" /\ proc.env = "true")) THEN "updated" ELSE "failed"
CallsRight == [][out'.kind = "match" =>
                   LET c == last' IN
                   /\ out'.outc = Right(c)
                   /\ out'.outc \in {"passed", "failed"} => disk' = disk
                   /\ out'.outc \in {"added", "updated"} => \A p \in DOMAIN disk : p # Slot(c)[1] => disk'[p] = disk[p]]_mcvars
\* every slot but the one addressed keeps its value and its place  (C03, C04)
RECURSIVE KeepHeaders(_, _, _)
KeepHeaders(es, hs, i) == IF i > Len(es) THEN <<>> ELSE (IF es[i].h \in hs THEN <<es[i].h>> ELSE <<>>) \o KeepHeaders(es, hs, i + 1)
OrderKept == [][out'.kind = "match" => \A p \in DOMAIN disk \cap DOMAIN disk' : p = MFile =>
                 LET a == Entries(disk[p]) b == Entries(disk'[p]) IN
                 SubSeq([i \in 1..Len(b) |-> b[i].h], 1, Len(a)) = [i \in 1..Len(a) |-> a[i].h]]_mcvars
\* CI never writes; only Clean deletes, and only when told  (C05)
CIReadOnly == [][proc.live /\ proc.ci => disk' = disk]_mcvars
OnlyCleanDeletes == [][(DOMAIN disk \ DOMAIN disk' # {} \/ Cardinality(DOMAIN store') < Cardinality(DOMAIN store)) =>
                         out'.kind = "clean" /\ ~proc.ci /\ proc.env \in {"true", "clean"}]_mcvars
\* Clean  (C07, C08, C09)
CleanRight == [][out'.kind = "clean" =>
    /\ \A s \in DOMAIN store : (s \in addr \/ s[1] \in saddr) => s \in DOMAIN store' /\ store'[s] = store[s]
    /\ \A s \in DOMAIN store : Protected(s[2]) => s \in DOMAIN store' /\ store'[s] = store[s]
    /\ out'.files \cap (saddr \cup MultiFiles) = {}
    /\ (~Deletes(proc) /\ ~Sorts(proc, TRUE)) => disk' = disk
    /\ (~Deletes(proc)) => DOMAIN store' = DOMAIN store]_mcvars
\* a second Clean changes nothing  (C10)
CleanIdempotent == [][(out'.kind = "clean" /\ out.kind = "clean" /\ phase = "cleaned" /\ (out'.sort => out.sort)) => disk' = disk /\ out'.touched = {}]_mcvars
Totals == LET s == tot.passed + tot.failed + tot.added + tot.updated IN s <= nc /\ (~proc.live \/ s + Len(skips) = nc)

\* ------------------------------------------------------------------ generation
Emit == (phase = "idle" /\ np = MaxProcs /\ Record) => PrintT(<<"SCRIPT", ToJson(hist)>>)

\* ------------------------------------------------------------------ constants of the registered models
CoreVals == {<<"a">>, <<"---">>, <<"/-/-/-/">>, <<"[TestB - 1]", "q", "---">>, <<"", "">>}
TwoVals == {<<"a">>, <<"---">>}
OneVal == {<<"a">>}
CoreRuns == {AnyTest}
NoPlants == {<<>>}
Lv(s) == <<[a |-> TRUE, z |-> TRUE, s |-> s]>>
RunA == <<<<Lv("TestA")>>>>
SomeRuns == {AnyTest, RunA}
=============================================================================
