------------------------------- MODULE Snaps --------------------------------
(* go-snaps as a state machine.

   State that survives a process is the disk (files as line sequences, SnapFile.tla); the rest belongs to one process.
   One action per public call: StartProc, Begin (a test execution starts), Match (every Match* call), Skip, EndTest,
   Clean.  `out` is what the last action showed to the outside (calls on testingT, files written, summary). *)
EXTENDS SnapFile, Loc, Select, FiniteSets

VARIABLES
  disk,     \* path -> lines
  proc,     \* [live, ci, env, run]: mode of the process (CI detected, UPDATE_SNAPS, -run) and whether it is running
  running,  \* <<key, test>> -> calls made by the current execution of the test on that file
  addr,     \* slots addressed in this process: {<<path, test, k>>}
  saddr,    \* standalone files addressed in this process
  skips,    \* names of tests that called snaps.Skip*, in order
  tot,      \* [passed, failed, added, updated]
  owner,    \* path -> tests that ever addressed the file (survives processes; says whom a file belongs to)
  out

svars == <<disk, proc, running, addr, saddr, skips, tot, owner, out>>

CONSTANTS
  StructuralLookup,  \* FALSE: the pinned tree's "first line that looks like the header" search
  KeepInReport,      \* FALSE: the pinned tree's Clean drops stale entries from a file it only sorts
  LiveByHighest      \* FALSE: the pinned tree's Clean derives the live ids from (number of calls / -count)

NoOut == [kind |-> "none"]
Zero == [passed |-> 0, failed |-> 0, added |-> 0, updated |-> 0]
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Without(f, ks) == TLCEval([x \in DOMAIN f \ ks |-> f[x]])

\* ------------------------------------------------------------------ mode table
Creatable(p, upd) == ~p.ci /\ (upd = "unset" \/ upd = "true")
Updatable(p, upd) == ~p.ci /\ (upd = "true" \/ (upd = "unset" /\ p.env = "true"))
Deletes(p) == ~p.ci /\ p.env \in {"true", "clean"}
Sorts(p, sort) == sort /\ ~p.ci

\* ------------------------------------------------------------------ process and test life cycle
DeadProc == [live |-> FALSE, ci |-> FALSE, env |-> "", run |-> AnyTest]
SInit(d) == /\ disk = d /\ proc = DeadProc /\ running = <<>> /\ addr = {} /\ saddr = {}
            /\ skips = <<>> /\ tot = Zero /\ owner = <<>> /\ out = NoOut

StartProc(ci, env, run) ==
  /\ proc' = [live |-> TRUE, ci |-> ci, env |-> env, run |-> run]
  /\ running' = <<>> /\ addr' = {} /\ saddr' = {} /\ skips' = <<>> /\ tot' = Zero
  /\ out' = NoOut
  /\ UNCHANGED <<disk, owner>>

ExitProc == /\ proc.live /\ proc' = DeadProc /\ out' = NoOut
            /\ UNCHANGED <<disk, running, addr, saddr, skips, tot, owner>>

EndTest(t) ==
  /\ proc.live
  /\ running' = Without(running, {x \in DOMAIN running : x[2] = t})
  /\ out' = NoOut
  /\ UNCHANGED <<disk, proc, addr, saddr, skips, tot, owner>>

SkipTest(t) ==
  /\ proc.live
  /\ skips' = Append(skips, t)
  /\ out' = [kind |-> "skip"]
  /\ UNCHANGED <<disk, proc, running, addr, saddr, tot, owner>>

\* ------------------------------------------------------------------ Match* calls
(* c: [t, solo, key, path, kind, val, upd]
     solo  FALSE: an entry of the shared file c.path; TRUE: a file of its own, c.path is indexed by the ordinal
     key   what the ordinal is counted per, together with the test
     kind  "val": c.val is the formatted text; "ro": the same, and the file cannot be written; "bad": invalid input or a matcher error; "noop": MatchSnapshot(t)
   The result r: [k, outc, path, write, content] *)

\* Pinned tree: the first line that equals the header, anywhere in the file
NaiveFind(L, h) == LET i == NextLine(L, h, 1) IN
                   IF i = 0 THEN <<>>
                   ELSE LET e == NextLine(L, Terminator, i + 1) IN IF e = 0 THEN <<>> ELSE <<[h |-> h, at |-> i, end |-> e]>>
Lookup(L, h) == IF StructuralLookup
                THEN LET es == Entries(L) i == FindIn(es, h, 1) IN IF i = 0 THEN <<>> ELSE <<es[i]>>
                ELSE NaiveFind(L, h)

Ordinal(c) == At(running, <<c.key, c.t>>, 0) + 1

MatchResult(c) ==
  LET k == Ordinal(c)
      p == IF c.solo THEN c.path[1] \o ToString(k) \o c.path[2] ELSE c.path[1]
      exists == p \in DOMAIN disk
      nothing(o) == [k |-> k, outc |-> o, path |-> p, write |-> FALSE, content |-> EmptyFile]
      writes(o, L) == IF c.kind = "ro" THEN nothing("failed") ELSE [k |-> k, outc |-> o, path |-> p, write |-> TRUE, content |-> L]
  IN IF c.kind = "noop" THEN [nothing("noop") EXCEPT !.k = 0, !.path = ""]
     ELSE IF c.kind = "bad" THEN nothing("failed")
     ELSE IF c.solo THEN
       IF ~exists THEN IF Creatable(proc, c.upd) THEN writes("added", c.val) ELSE nothing("failed")
       ELSE IF disk[p] = c.val THEN nothing("passed")
       ELSE IF Updatable(proc, c.upd) THEN writes("updated", c.val) ELSE nothing("failed")
     ELSE
       LET L == At(disk, p, EmptyFile)
           h == Header(c.t, k)
           e == Lookup(L, h)
           b == Escape(c.val)
       IN IF e = <<>> THEN IF Creatable(proc, c.upd) THEN writes("added", AppendEntry(L, h, b)) ELSE nothing("failed")
          ELSE IF Unescape(Body(L, e[1])) = Unescape(b) THEN nothing("passed")
          ELSE IF Updatable(proc, c.upd) THEN writes("updated", ReplaceBody(L, e[1], b)) ELSE nothing("failed")

\* What a call with result r does to everything but the disk, when it ended in outcome o
MatchBut(c, r, o) ==
  IF c.kind = "noop"
  THEN UNCHANGED <<proc, running, addr, saddr, skips, tot, owner>>
  ELSE /\ running' = Put(running, <<c.key, c.t>>, r.k)
       /\ addr' = IF c.solo THEN addr ELSE addr \cup {<<r.path, c.t, r.k>>}
       /\ saddr' = IF c.solo THEN saddr \cup {r.path} ELSE saddr
       /\ owner' = Put(owner, r.path, At(owner, r.path, {}) \cup {c.t})
       /\ tot' = [tot EXCEPT ![o] = @ + 1]
       /\ UNCHANGED <<proc, skips>>
MatchDisk(r) == IF r.write THEN Put(disk, r.path, r.content) ELSE disk
MatchOut(r) == [kind |-> "match", outc |-> r.outc, path |-> r.path, k |-> r.k,
                touched |-> IF r.write THEN {r.path} ELSE {}]

Match(c) ==
  /\ proc.live
  /\ \E r \in {MatchResult(c)} :
     /\ disk' = MatchDisk(r)
     /\ out' = MatchOut(r)
     /\ MatchBut(c, r, r.outc)

\* ------------------------------------------------------------------ Clean
Rng(s) == {s[i] : i \in 1..Len(s)}
MultiFiles == {a[1] : a \in addr}
VisitedDirs == {DirOf(p) : p \in MultiFiles \cup saddr}
Candidates == {p \in DOMAIN disk : DirOf(p) \in VisitedDirs /\ Contains(BaseOf(p), SnapExt)}

\* a test that did not run: skipped through snaps.Skip*, or not selected by -run
SkipProtected(t) == \E s \in Rng(skips) : t = s \/ HasPrefix(t, s \o "/")
Protected(t) == SkipProtected(t) \/ ~Selected(proc.run, t)

Highest(p, t) == LET ks == {a[3] : a \in {b \in addr : b[1] = p /\ b[2] = t}} IN
                 IF ks = {} THEN 0 ELSE CHOOSE m \in ks : \A x \in ks : x <= m
\* Live: the entry was addressed in this process
Live(p, h) == \E a \in addr : a[1] = p /\ Header(a[2], a[3]) = h

\* whom does a file belong to: the tests of its entries, and the tests that addressed it as a standalone file
FileOwners(p) == At(owner, p, {}) \cup {NameOf(e.h) : e \in {x \in Rng(Entries(disk[p])) : IsSlotHeader(x.h)}}
\* could the name of file p be that of a standalone snapshot of test s or of a descendant?  ("/" became "_", so the
\* name alone does not always tell; an ambiguous file may be kept, and may be reported)
\* Neither does a line that looks like the header of a protected test and begins no complete entry (a cut-off entry of
\* that test, or a value that happens to hold such a line): outside every entry it is up to go-snaps what it makes of it.
LooseLines(p) == LET es == Entries(disk[p]) IN
                 {i \in 1..Len(disk[p]) : \A j \in 1..Len(es) : i < es[j].at \/ i > es[j].end}
Ambiguous(p) == \/ \E s \in Rng(skips) : HasPrefix(BaseOf(p), ReplaceCh(s, "/", "_") \o "_")
                \/ \E i \in LooseLines(p) : IsSlotHeader(disk[p][i]) /\ SkipProtected(NameOf(disk[p][i]))

UnusedFiles == Candidates \ (MultiFiles \cup saddr)
UsedFiles == Candidates \cap MultiFiles
FileMust == {p \in UnusedFiles : IsAny(proc.run) /\ ~Ambiguous(p) /\ \A t \in FileOwners(p) : ~Protected(t)}
FileMay == {p \in UnusedFiles : \A t \in FileOwners(p) : ~Protected(t)}

\* positions of stale entries of a used file
Stale(p) == LET es == Entries(disk[p]) IN
            {i \in 1..Len(es) : IsSlotHeader(es[i].h) /\ ~Live(p, es[i].h) /\ ~Protected(NameOf(es[i].h))}
StaleMust(p) == IF IsAny(proc.run) THEN Stale(p) ELSE {}

RECURSIVE Keep(_, _, _, _)
Keep(el, drop, i, acc) == IF i > Len(el) THEN acc ELSE Keep(el, drop, i + 1, IF i \in drop THEN acc ELSE Append(acc, el[i]))

IsSorted(el) == \A i \in 1..(Len(el) - 1) : ~NatLess(IdOf(el[i + 1].h), IdOf(el[i].h))
Count(el, e) == Cardinality({i \in 1..Len(el) : el[i] = e})
IsPerm(a, b) == Len(a) = Len(b) /\ \A e \in Rng(a) : Count(a, e) = Count(b, e)

(* The effect of Clean on one used file, given the set `drop` of entries it reported stale there.
   sortReq: sorting requested.  A file that needs neither pruning nor sorting is not written. *)
Survivors(p, drop) == LET el == EntryList(disk[p]) IN Keep(el, IF Deletes(proc) THEN drop ELSE {}, 1, <<>>)
NeedsWrite(p, drop, sort) ==
  \/ Deletes(proc) /\ drop # {}
  \/ Sorts(proc, sort) /\ ~IsSorted(EntryList(disk[p]))
CleanFileOK(p, drop, sort, L2) ==
  IF ~NeedsWrite(p, drop, sort) THEN L2 = disk[p]
  ELSE LET sv == Survivors(p, drop) el2 == EntryList(L2) IN
       IF Sorts(proc, sort) THEN IsPerm(sv, el2) /\ IsSorted(el2) ELSE el2 = sv

\* Clean as a function (used by the exploring models): everything that may be reported and must be
RECURSIVE InsertSorted(_, _), SortEntries(_, _)
InsertSorted(s, e) == IF s = <<>> THEN <<e>>
                      ELSE IF NatLess(IdOf(e.h), IdOf(s[1].h)) THEN <<e>> \o s
                      ELSE <<s[1]>> \o InsertSorted(Tail(s), e)
SortEntries(el, acc) == IF el = <<>> THEN acc ELSE SortEntries(Tail(el), InsertSorted(acc, Head(el)))

CleanedFile(p, drop, sort) ==
  LET el == EntryList(disk[p])
      sv == IF KeepInReport THEN Survivors(p, drop) ELSE Keep(el, drop, 1, <<>>)
  IN IF ~NeedsWrite(p, drop, sort) THEN disk[p]
     ELSE RenderFile(IF Sorts(proc, sort) THEN SortEntries(sv, <<>>) ELSE sv)

Clean(sort, staleOf(_)) ==
  /\ proc.live
  /\ LET obs == FileMay IN
     /\ disk' = [p \in (IF Deletes(proc) THEN DOMAIN disk \ obs ELSE DOMAIN disk) |->
                   IF p \in UsedFiles THEN CleanedFile(p, staleOf(p), sort) ELSE disk[p]]
     /\ out' = [kind |-> "clean", sort |-> sort, files |-> obs,
                tests |-> UNION {{<<p, i>> : i \in staleOf(p)} : p \in UsedFiles},
                tot |-> tot, skipped |-> Len(skips),
                touched |-> {p \in UsedFiles : NeedsWrite(p, staleOf(p), sort)}]
  /\ UNCHANGED <<proc, running, addr, saddr, skips, tot, owner>>
=============================================================================
