------------------------------ MODULE DiffTrace ------------------------------
(* Judges the failure reports and the edit scripts of the real code.

   A trace has texts (sequences of line numbers, a line number per distinct line) and two kinds of events: "diff", a call whose
   stored text is texts[a] and whose received text is texts[b], with its report taken apart, and "script", the hunks that
   the line diff produced for a context of n lines. *)
EXTENDS Diff, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Data)
VARIABLES tr, l
tvars == <<tr, l>>

Ev == Data[tr].ev[l]
Want(cl, ok, what, expected, got) ==
  IF ok THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([tr |-> tr, l |-> l, cl |-> cl, what |-> what, expected |-> ToString(expected), got |-> ToString(got)])>>) /\ FALSE

TInit == tr \in 1..N /\ l = 1 /\ TLCSet(tr, 0)
Step(e) == l <= Len(Data[tr].ev) /\ Ev.ev = e /\ l' = l + 1 /\ tr' = tr

Items(e) == TLCEval([i \in 1..Len(e.ks) |-> [k |-> e.ks[i], l |-> IF e.ks[i] = "@" THEN e.hs[e.ls[i]] ELSE e.ls[i]]])

TDiff == /\ Step("diff")
         /\ \E a \in {Data[tr].texts[Ev.a]} : \E b \in {Data[tr].texts[Ev.b]} :
            /\ Want("signal", Ev.nother = 0 /\ Ev.nerr \in {0, 1}, "the call", "passes or fails", <<Ev.nerr, Ev.nother>>)
            /\ Want("empty", (Ev.nerr = 0) = (a = b), "an empty report", a = b, Ev.nerr = 0)
            /\ Want("empty", Ev.nerr = 0 \/ ~Ev.blank, "a failure without a report", FALSE, Ev.blank)
            /\ IF a = b \/ Ev.col THEN TRUE
               ELSE /\ Want("report", Ev.parsed, "the layout of the report", TRUE, Ev.parsed)
                    /\ Want("escapes", Ev.esc = 0, "escape sequences added", 0, Ev.esc)
                    /\ \E items \in {Items(Ev)} :
                       /\ Want("counts", Ev.hd = Count(items, "-") /\ Ev.hi = Count(items, "+"), "header counts", <<Count(items, "-"), Count(items, "+")>>, <<Ev.hd, Ev.hi>>)
                       /\ \E x \in {Explain(items, a, b)} : Want("edit", x = 0, "the report explains the edit", <<a, b>>, <<x, items>>)

T2(c) == CASE c = 0 -> "=" [] c = 1 -> "+" [] c = 2 -> "-" [] OTHER -> "!"
Gs(e) == TLCEval([g \in 1..Len(e.gs) |-> [p \in 1..Len(e.gs[g]) |-> Op(T2(e.gs[g][p][1]), e.gs[g][p][2], e.gs[g][p][3], e.gs[g][p][4], e.gs[g][p][5])]])
Changes(gs) == \E g \in 1..Len(gs) : \E p \in 1..Len(gs[g]) : gs[g][p].t # "="

TScript == /\ Step("script")
           /\ \E a \in {Data[tr].texts[Ev.a]} : \E b \in {Data[tr].texts[Ev.b]} : \E gs \in {Gs(Ev)} :
              /\ Want("hunks", GroupsOK(gs, a, b), "hunks", <<a, b>>, gs)
              /\ Want("hunks", Changes(gs) <=> a # b, "hunks with a change", a # b, gs)
              /\ IF a # b /\ Ev.n > Len(a)
                 THEN /\ Want("tiles", Len(gs) = 1 /\ Tiles(gs[1], a, b), "the script tiles the texts", <<a, b>>, gs)
                      /\ Want("replays", Replay(gs[1], a, b) = b, "the script replayed", b, Replay(gs[1], a, b))
                 ELSE TRUE

TNext == (TDiff \/ TScript) /\ TLCSet(tr, l)
TSpec == TInit /\ [][TNext]_tvars
Accepted == LET stuck == {i \in 1..N : TLCGet(i) # Len(Data[i].ev)} IN
            /\ PrintT(<<"TRACES", ToJson([n |-> N, stuck |-> [i \in 1..N |-> IF i \in stuck THEN TLCGet(i) + 1 ELSE 0]])>>)
            /\ stuck = {}
=============================================================================
