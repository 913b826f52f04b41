----------------------------- MODULE SnapsTrace ------------------------------
(* Checks traces recorded from the real code against Snaps.  A file of traces is read; each trace is a chain of states
   (variable tr: which trace, l: next event).  Every step applies the specification's action to the state before it and
   compares what the action shows with what the code showed; the disk of the next state is the observed one, so each
   step is judged from the real state before it.

   A trace names the clauses it is judged on (Tr.clauses): a property's check enforces the clauses that state that
   property.  A trace that cannot be followed to its end is reported by the postcondition. *)
EXTENDS Snaps, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Data)

VARIABLES tr, l,
          settled,  \* the disk when the calls that are being judged as a group began
          rec       \* slot -> the value it was last given (a ghost: what a store that never loses anything would hold)
tvars == <<svars, tr, l, settled, rec>>

Ev == Data[tr].ev[l]
Cl(c) == \E i \in 1..Len(Data[tr].clauses) : Data[tr].clauses[i] = c

RECURSIVE ApplyDelta(_, _, _)
ApplyDelta(d, dl, i) == IF i > Len(dl) THEN d
                        ELSE ApplyDelta(IF dl[i].del THEN Without(d, {dl[i].p}) ELSE Put(d, dl[i].p, dl[i].lines), dl, i + 1)
Obs == ApplyDelta(disk, Ev.delta, 1)
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* a clause: enforced only when the trace asks for it; says what went wrong
Want(cl, ok, what, expected, got) ==
  IF ~Cl(cl) \/ ok THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([tr |-> tr, l |-> l, cl |-> cl, what |-> what, expected |-> ToString(expected), got |-> ToString(got)])>>) /\ FALSE

\* Entries of a long file, remembered from one event of a trace to the next (the configuration substitutes it for Entries)
RememberedEntries(L) ==
  IF Len(L) < 200 THEN Parse(L)
  ELSE LET c == TLCGet(N + tr) IN
       IF c.L = L THEN c.es
       ELSE LET es == TLCEval(Parse(L)) IN IF TLCSet(N + tr, [L |-> L, es |-> es]) THEN es ELSE es

TInit == /\ tr \in 1..N /\ l = 1
         /\ SInit(ApplyDelta(<<>>, Data[tr].init, 1))
         /\ settled = disk /\ rec = <<>> /\ TLCSet(tr, 0) /\ TLCSet(N + tr, [L |-> <<>>, es |-> <<>>])

Step(e) == /\ l <= Len(Data[tr].ev) /\ Ev.ev = e /\ l' = l + 1 /\ tr' = tr

\* ---- events
TStart == /\ Step("start")
          /\ StartProc(Ev.ci, Ev.env, Ev.run)

\* the environment changed the disk between processes (files planted, edited or removed by the user)
TEdit == /\ Step("edit")
         /\ disk' = Obs /\ out' = NoOut
         /\ UNCHANGED <<proc, running, addr, saddr, skips, tot, owner>>

\* a location read as "solo" gives the two halves around the ordinal
SoloApi(api) == api \in {"SS", "SJ"}
ExtOf(e) == IF e.api = "SJ" /\ e.ext = "" THEN ".json" ELSE e.ext
PathOf(e) == IF SoloApi(e.api) THEN SoloHalves(e.src, e.t, e.dir, e.fn, ExtOf(e))
             ELSE <<MultiPath(e.src, e.base, e.dir, e.fn, e.ext)>>
CallOf(e) == LET p == PathOf(e) IN
             [t |-> e.t, solo |-> SoloApi(e.api), key |-> p, path |-> p, kind |-> e.kind, val |-> e.val, upd |-> e.upd]

\* the one outcome the call signalled to the test, "?" when it is not exactly one of the four
Signalled(e) == IF e.nerr = 1 /\ e.nadd = 0 /\ e.nupd = 0 /\ e.nother = 0 THEN "failed"
                ELSE IF e.nerr = 0 /\ e.nadd = 1 /\ e.nupd = 0 /\ e.nother = 0 THEN "added"
                ELSE IF e.nerr = 0 /\ e.nadd = 0 /\ e.nupd = 1 /\ e.nother = 0 THEN "updated"
                ELSE IF e.nerr = 0 /\ e.nadd = 0 /\ e.nupd = 0 /\ e.nother = 0 THEN "passed"
                ELSE IF e.nerr = 0 /\ e.nadd = 0 /\ e.nupd = 0 /\ e.nother = 1 THEN "noop"
                ELSE "?"
SigOf(e) == <<e.nerr, e.nadd, e.nupd, e.nother>>

\* The slot of a call, as the ghost store names it, and whether its texts replay exactly: the documented limitation is a
\* carriage return at the end of a line of a shared file (it is "%0d" in a trace)
SlotOf(c) == IF c.solo THEN <<c.path[1] \o ToString(Ordinal(c)) \o c.path[2], "", 0>> ELSE <<c.path[1], c.t, Ordinal(c)>>
Exact(c, v) == c.solo \/ \A i \in 1..Len(v) : ~HasSuffix(v[i], "%0d")
TRec == rec' = IF Ev.ev = "match"
               THEN LET c == CallOf(Ev) s == Signalled(Ev) IN
                    IF c.kind = "val" /\ s \in {"added", "updated"} THEN Put(rec, SlotOf(c), c.val) ELSE rec
               ELSE IF Ev.ev = "edit" THEN Without(rec, {x \in DOMAIN rec : \E i \in 1..Len(Ev.delta) : Ev.delta[i].p = x[1]})
               ELSE IF Ev.ev = "clean" /\ Deletes(proc)
               THEN Without(rec, {x \in DOMAIN rec : x[1] \notin saddr /\ x \notin addr})
               ELSE rec

TMatch ==
  /\ Step("match")
  /\ proc.live
  /\ \E c \in {CallOf(Ev)} : \E res \in {MatchResult(c)} : \E o2 \in {Obs} :
     LET r == MatchOut(res)
         s == Signalled(Ev)
     IN /\ Want("nopanic", Ev.panic = "", "panic", "", Ev.panic)
        /\ Want("one", s # "?" /\ (s = "noop") = (c.kind = "noop"), "signal", "exactly one of passed/added/updated/failed", SigOf(Ev))
        /\ Want("out", s = r.outc, "outcome", r, <<s, Ev.err>>)
        \* whatever the file looks like: a call passes exactly when its value is the one its slot was last given
        /\ Want("replay", LET sl == SlotOf(c) IN
                          c.kind # "val" \/ sl \notin DOMAIN rec \/ ~Exact(c, c.val) \/ ~Exact(c, rec[sl]) \/ (s = "passed") = (rec[sl] = c.val) \/ (s = "updated" /\ rec[sl] # c.val),
                "replay of what the slot was last given", IF c.kind = "val" THEN At(rec, SlotOf(c), <<>>) ELSE <<>>, <<s, c.val>>)
        /\ Want("caller", Ev.bufok, "caller's data modified", TRUE, Ev.bufok)
        /\ Want("names", Ev.names, "error names matchers and paths", TRUE, Ev.err)
        /\ Want("foot", Ev.foot = "" \/ c.kind # "val" \/ Ev.foot = r.path, "file named by the report", r.path, Ev.foot)
        \* concurrent calls: what they did to the disk together is compared when all of them are done (TSettle)
        /\ IF Ev.conc THEN disk' = MatchDisk(res)
           ELSE
           /\ Want("place", IF s \in {"added", "updated"} THEN SetOf(Ev.touched) = {r.path} ELSE SetOf(Ev.touched) = {}, "files written",
                   r, SetOf(Ev.touched))
           /\ Want("touch", SetOf(Ev.touched) = r.touched, "files written", r.touched, SetOf(Ev.touched))
           /\ Want("dirs", Ev.newdirs = <<>> \/ r.touched # {}, "directories created", {}, Ev.newdirs)
           \* a failing or passing call changes nothing, whatever it should have done
           /\ Want("inert", s \in {"added", "updated"} \/ (o2 = disk /\ SetOf(Ev.touched) = {}), "failed/passed call wrote", disk, Ev.delta)
           /\ LET d1 == MatchDisk(res) IN
              Want("disk", o2 = d1, "disk", [p \in {q \in DOMAIN d1 : q \notin DOMAIN o2 \/ o2[q] # d1[q]} |-> d1[p]], Ev.delta)
           /\ disk' = o2
        /\ out' = NoOut
        /\ IF s \in {"passed", "added", "updated", "failed"} THEN MatchBut(c, res, s)
           ELSE IF c.kind = "noop" THEN MatchBut(c, res, "noop") ELSE MatchBut(c, res, res.outc)

(* A group of executions ran concurrently: their calls are recorded in the order in which they returned, each was judged
   as if it had run alone (the slots of different tests are disjoint, so the outcome is the same in every serial order),
   and disk is what a serial execution leaves.  The real disk may differ from it only in the order of entries that were
   added by different tests. *)
SameEntries(L, L2) == LET a == EntryList(L) b == EntryList(L2) IN IsPerm(a, b) /\ L2 = RenderFile(b)
TSettle == /\ Step("settle")
           /\ \E base \in {settled} : \E o2 \in {ApplyDelta(base, Ev.delta, 1)} :
              LET odd == {p \in DOMAIN disk \cup DOMAIN o2 :
                            \/ p \notin DOMAIN disk \/ p \notin DOMAIN o2
                            \/ disk[p] # o2[p] /\ (p \in saddr \/ ~SameEntries(disk[p], o2[p]))
                            \* the entries that were there keep their places
                            \/ p \in DOMAIN base /\ p \notin saddr /\
                                 LET x == Entries(base[p]) y == Entries(o2[p]) IN
                                 \E i \in 1..Len(x) : i > Len(y) \/ y[i].h # x[i].h}
              IN /\ Want("settle", odd = {}, "files after concurrent calls", [p \in odd |-> At(disk, p, <<"absent">>)], [p \in odd |-> At(o2, p, <<"absent">>)])
                 /\ disk' = o2
           /\ out' = NoOut
           /\ UNCHANGED <<proc, running, addr, saddr, skips, tot, owner>>

TEnd == /\ Step("end")
        /\ Want("end", Ev.delta = <<>> /\ Ev.touched = <<>>, "end of a test changed the disk", <<>>, Ev.delta)
        /\ proc.live
        /\ running' = Without(running, {x \in DOMAIN running : x[2] = Ev.t})
        /\ disk' = Obs /\ out' = NoOut
        /\ UNCHANGED <<proc, addr, saddr, skips, tot, owner>>

TSkip == /\ Step("skip")
         /\ Want("skip", Ev.nskip = 1 /\ Ev.nerr = 0 /\ Ev.delta = <<>> /\ Ev.touched = <<>>, "skip", 1, <<Ev.nskip, Ev.nerr>>)
         /\ SkipTest(Ev.t)

\* ---- Clean
(* Everything the clauses about Clean need, evaluated once: entries before and after, which of them are live, protected,
   stale, and which disappeared.  An entry occurrence is <<p, i>>. *)
CleanFacts(o2) ==
  LET used == UsedFiles
      el == TLCEval([p \in used |-> EntryList(disk[p])])
      el2 == TLCEval([p \in used |-> IF p \in DOMAIN o2 THEN EntryList(o2[p]) ELSE <<>>])
      occ == UNION {{<<p, i>> : i \in 1..Len(el[p])} : p \in used}
      lh == {<<a[1], Header(a[2], a[3])>> : a \in addr}
  IN [used |-> used, el |-> el, el2 |-> el2, occ |-> occ,
      id |-> TLCEval([x \in occ |-> IdOf(el[x[1]][x[2]].h)]),
      live |-> {x \in occ : <<x[1], el[x[1]][x[2]].h>> \in lh},
      prot |-> {x \in occ : LET h == el[x[1]][x[2]].h IN IsSlotHeader(h) /\ Protected(NameOf(h))},
      slots |-> {x \in occ : IsSlotHeader(el[x[1]][x[2]].h)},
      removed |-> {x \in occ : Count(el2[x[1]], el[x[1]][x[2]]) < Count(el[x[1]], el[x[1]][x[2]])},
      lh |-> lh, fileMay |-> FileMay, fileMust |-> FileMust, gone |-> DOMAIN disk \ DOMAIN o2]
Of(S, p) == {x[2] : x \in {y \in S : y[1] = p}}
CountId(seq, id) == Cardinality({i \in 1..Len(seq) : seq[i] = id})
N1(F, S, id) == Cardinality({x \in S : F.id[x] = id})

\* a name that begins like the name of a skipped test, or the other way round
Akin(nm) == \E i \in 1..Len(skips) : HasPrefix(nm, skips[i]) \/ HasPrefix(skips[i], nm)

TClean ==
  /\ Step("clean")
  /\ proc.live
  /\ \E o2 \in {Obs} : \E F \in {CleanFacts(o2)} :
     \E G \in {[stale |-> (F.slots \ F.live) \ F.prot, files |-> SetOf(Ev.files),
                ids |-> SetOf(Ev.tests) \cup {F.id[x] : x \in F.occ},
                rest |-> TLCEval([p \in F.used |-> Keep(F.el[p], Of(F.removed, p), 1, <<>>)])]} :
     \E needs \in {{p \in F.used : (Deletes(proc) /\ Of(F.removed, p) # {}) \/ (Sorts(proc, Ev.sort) /\ ~IsSorted(F.el[p]))}} :
     LET e == Ev
         files == G.files
         gone == F.gone
         must == IF IsAny(proc.run) THEN G.stale ELSE {}
         idlow == {id \in G.ids : CountId(e.tests, id) < N1(F, must, id)}
         idhigh == {id \in G.ids : CountId(e.tests, id) > N1(F, G.stale, id)}
         idrem == {id \in G.ids : CountId(e.tests, id) # N1(F, F.removed, id)}
         lost == {h \in F.lh : /\ h[1] \in F.used
                               /\ LET i == FindIn(F.el[h[1]], h[2], 1) j == FindIn(F.el2[h[1]], h[2], 1)
                                  IN i # 0 /\ (j = 0 \/ F.el[h[1]][i] # F.el2[h[1]][j])}
         listed == {h \in F.lh : LET id == IdOf(h[2]) IN CountId(e.tests, id) > N1(F, F.occ \ F.live, id)}
         perm == {p \in F.used : ~IsPerm(G.rest[p], F.el2[p])}
         order == {p \in F.used \cap DOMAIN o2 :
                     IF p \in needs /\ Sorts(proc, e.sort) THEN ~IsSorted(F.el2[p]) ELSE G.rest[p] # F.el2[p]}
     IN
     /\ Want("nopanic", e.panic = "", "panic", "", e.panic)
     \* C07: nothing addressed is lost, altered or listed
     /\ Want("keep", lost = {}, "addressed entries lost or altered", {}, lost)
     /\ Want("keep", listed = {}, "addressed entries listed obsolete", {}, listed)
     /\ Want("keep", \A p \in (saddr \cup MultiFiles) \cap DOMAIN disk : p \notin files /\ p \notin gone, "addressed files removed or listed", {}, <<files, gone>>)
     /\ Want("keep", \A p \in saddr \cap DOMAIN disk : o2[p] = disk[p], "standalone file altered", {}, e.delta)
     \* C08: nothing of a test that did not run is lost or listed
     /\ Want("protect", F.removed \cap F.prot = {} /\ \A id \in G.ids : CountId(e.tests, id) <= N1(F, F.occ \ F.prot, id),
             "entries of tests that did not run", {}, <<F.removed \cap F.prot, e.tests>>)
     /\ Want("protect", files \subseteq F.fileMay /\ gone \subseteq F.fileMay, "files of tests that did not run", F.fileMay, <<files, gone>>)
     \* ... and a skip protects nothing but its test and the descendants of it: stale entries of other tests are listed
     /\ Want("protect", \A id \in idlow : \A x \in must : F.id[x] = id => ~Akin(NameOf(F.el[x[1]][x[2]].h)),
             "stale entries of relatives of skipped tests are listed", idlow, e.tests)
     \* C09: exactly the stale items are reported, exactly the reported items are removed and only when they may be
     /\ Want("stale", idlow = {} /\ idhigh = {}, "stale entries reported", [x \in G.stale |-> F.id[x]], e.tests)
     /\ Want("stale", F.fileMust \subseteq files /\ files \subseteq F.fileMay, "stale files reported", <<F.fileMust, F.fileMay>>, files)
     /\ Want("remove", IF Deletes(proc) THEN gone = files /\ idrem = {} ELSE gone = {} /\ F.removed = {},
             "items removed", IF Deletes(proc) THEN <<files, e.tests>> ELSE <<{}, <<>>>>, <<gone, [x \in F.removed |-> F.id[x]]>>)
     /\ Want("others", /\ \A p \in DOMAIN o2 : p \in DOMAIN disk
                       /\ \A p \in DOMAIN o2 \ F.used : o2[p] = disk[p], "other files touched", {}, e.delta)
     \* C10: rewrites
     /\ Want("rewrite", perm = {}, "entries dropped, duplicated or altered by the rewrite", {}, <<perm, e.delta>>)
     /\ Want("rewrite", order = {}, "order of entries", {}, <<order, e.delta>>)
     /\ Want("cleantouch", SetOf(e.touched) \ gone = needs, "files written", needs, SetOf(e.touched))
     \* C05: mode table of Clean
     /\ Want("mode", Deletes(proc) \/ (gone = {} /\ F.removed = {}), "deletion outside clean mode", {}, <<gone, e.delta>>)
     /\ Want("mode", Deletes(proc) \/ Sorts(proc, e.sort) \/ (e.delta = <<>> /\ e.touched = <<>>), "write without being asked", {}, e.delta)
     /\ Want("mode", Sorts(proc, e.sort) \/ \A p \in F.used \cap DOMAIN o2 : G.rest[p] = F.el2[p], "reordered without being asked", {}, e.delta)
     /\ Want("mode", ~Deletes(proc) \/ (gone = files /\ idrem = {}), "reported items not deleted in clean mode", {}, <<files, gone, e.tests>>)
     /\ Want("dirs", e.newdirs = <<>>, "directories created", {}, e.newdirs)
     \* C20: the summary
     /\ Want("sum", e.sum = [passed |-> tot.passed, failed |-> tot.failed, added |-> tot.added, updated |-> tot.updated, skipped |-> Len(skips)],
             "summary totals", <<tot, Len(skips)>>, e.sum)
     /\ Want("sum", e.nfiles = Len(e.files) /\ e.ntests = Len(e.tests), "summary list lengths", <<Len(e.files), Len(e.tests)>>, <<e.nfiles, e.ntests>>)
     /\ Want("sum", Cardinality(files) = Len(e.files), "a file is listed twice", {}, e.files)
     /\ Want("sum", e.verb = "" \/ e.verb = (IF Deletes(proc) THEN "removed" ELSE "obsolete"), "summary verb", Deletes(proc), e.verb)
     /\ Want("sum", ~Deletes(proc) \/ (gone = files /\ idrem = {}), "listed items are the removed ones", <<gone, [x \in F.removed |-> F.id[x]]>>, <<files, e.tests>>)
     /\ disk' = o2
     /\ out' = NoOut
     /\ UNCHANGED <<proc, running, addr, saddr, skips, tot, owner>>

\* the race detector reported a data race in this process
TRace == /\ Step("race") /\ Want("race", FALSE, "data race", "", Ev.report)
         /\ UNCHANGED svars

TExit == Step("exit") /\ ExitProc

Grouped == Ev.ev \in {"match", "end", "skip"} /\ Ev.conc
TNext == /\ (TStart \/ TEdit \/ TMatch \/ TSettle \/ TEnd \/ TSkip \/ TClean \/ TRace \/ TExit)
         /\ settled' = (IF Grouped THEN settled ELSE disk')
         /\ TRec
         /\ TLCSet(tr, l)
TSpec == TInit /\ [][TNext]_tvars

Accepted == LET stuck == {i \in 1..N : TLCGet(i) # Len(Data[i].ev)} IN
            /\ PrintT(<<"TRACES", ToJson([n |-> N, stuck |-> [i \in 1..N |-> IF i \in stuck THEN TLCGet(i) + 1 ELSE 0]])>>)
            /\ stuck = {}
=============================================================================
