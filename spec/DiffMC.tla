------------------------------- MODULE DiffMC --------------------------------
(* All pairs of texts over a small alphabet: the algorithm of Diff.tla satisfies the relation. *)
EXTENDS Diff

CONSTANTS Letters, MaxLen, Ctxs
VARIABLES a, b
vars == <<a, b>>

Init == a = <<>> /\ b = <<>>
Next == \/ Len(a) < MaxLen /\ b = <<>> /\ b' = b /\ \E l \in Letters : a' = Append(a, l)
        \/ Len(b) < MaxLen /\ a' = a /\ \E l \in Letters : b' = Append(b, l)
Spec == Init /\ [][Next]_vars

ScriptRight == LET s == TLCEval(Script(a, b)) IN
               /\ Tiles(s, a, b) /\ Replay(s, a, b) = b
               /\ \A p \in 2..Len(s) : s[p].t # s[p - 1].t \/ s[p].t # "="        \* blocks that touch are merged
               /\ (a = b => \A p \in 1..Len(s) : s[p].t = "=")
HunksRight == LET s == TLCEval(Script(a, b)) IN \A n \in Ctxs : LET g == TLCEval(Groups(s, n)) IN GroupsOK(g, a, b) /\ (g = <<>> <=> a = b)
ReportRight == LET s == TLCEval(Script(a, b)) IN
               \A n \in Ctxs : LET g == TLCEval(Groups(s, n)) IN
                 \A h \in BOOLEAN : LET r == TLCEval(Render(g, a, b, h)) IN
                   /\ Explain(r, a, b) = 0
                   /\ (r = <<>> <=> a = b)
                   /\ Count(r, "-") - Count(r, "+") = Len(a) - Len(b)
\* the relation is not satisfied by anything: leaving out a changed line, or showing one twice, is not explained
ReportTight == LET s == TLCEval(Script(a, b)) r == TLCEval(Render(Groups(s, 1), a, b, TRUE)) IN
               \A p \in 1..Len(r) : r[p].k \in {"-", "+"} =>
                 /\ Explain(SubSeq(r, 1, p - 1) \o SubSeq(r, p + 1, Len(r)), a, b) # 0
                 /\ Explain(SubSeq(r, 1, p) \o SubSeq(r, p, Len(r)), a, b) # 0
=============================================================================
