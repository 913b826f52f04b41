-------------------------------- MODULE Docs ---------------------------------
(* Documents (JSON, YAML) and the matchers that mask parts of them.

   A node is [k, v, r, g, m]: k the kind (obj, arr, str, num, lit), v the value of a scalar in a normal form, r the
   literal it is written as, g the Go type a callback sees, m the members <<[n, rn, c]>> (name, name as it is written,
   child; arrays have empty names).  A text is a sequence of documents (JSON: one). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  MaskParent,   \* TRUE: (wrong) a matcher replaces the container of the value it targets
  FirstOnly,    \* TRUE: (wrong) a matcher that names several paths stops at the first
  KeepFailed    \* TRUE: the effect of a failing matcher on its other paths stays visible to the matchers after it

Scalar(k, v) == [k |-> k, v |-> v, r |-> v, g |-> IF k = "str" THEN "string" ELSE "float64", m |-> <<>>]

\* ---- paths: <<[t, s, i]>>: t "key" (members only), "idx" (elements only) or "any" (JSON: whatever the container is);
\* "all": every element; "odd": something that is no place in the document (a count, a modifier, a selection of members)
RECURSIVE MemberAt(_, _, _)
MemberAt(ms, n, i) == IF i > Len(ms) THEN 0 ELSE IF ms[i].n = n THEN i ELSE MemberAt(ms, n, i + 1)
Pos(node, seg) == IF seg.t \in {"all", "odd"} THEN 0
                  ELSE IF node.k = "obj" /\ seg.t # "idx" THEN MemberAt(node.m, seg.s, 1)
                  ELSE IF node.k = "arr" /\ seg.t # "key" /\ seg.i >= 0 /\ seg.i < Len(node.m) THEN seg.i + 1
                  ELSE 0
\* <<value>> or <<>>
RECURSIVE Get(_, _, _)
Get(node, p, i) == IF i > Len(p) THEN <<node>>
                   ELSE IF p[i].t = "all"
                   THEN IF node.k # "arr" THEN <<>>
                        ELSE LET hs == {j \in 1..Len(node.m) : Get(node.m[j].c, p, i + 1) # <<>>} IN
                             IF hs = {} THEN <<>> ELSE Get(node.m[CHOOSE j \in hs : \A k \in hs : j <= k].c, p, i + 1)
                   ELSE LET j == Pos(node, p[i]) IN IF j = 0 THEN <<>> ELSE Get(node.m[j].c, p, i + 1)
RECURSIVE Set(_, _, _, _)
Set(node, p, i, x) == IF i > Len(p) \/ (MaskParent /\ i = Len(p) /\ i > 1) THEN x
                      ELSE IF p[i].t = "all"
                      THEN IF node.k # "arr" THEN node ELSE [node EXCEPT !.m = [j \in DOMAIN @ |-> [@[j] EXCEPT !.c = Set(@, p, i + 1, x)]]]
                      ELSE LET j == Pos(node, p[i]) IN
                           IF j = 0 THEN node ELSE [node EXCEPT !.m[j].c = Set(@, p, i + 1, x)]
\* a text of several documents: the value is taken from the first that has the path, all that have it are changed
RECURSIVE GetIn(_, _, _)
GetIn(ds, p, i) == IF i > Len(ds) THEN <<>> ELSE LET g == Get(ds[i], p, 1) IN IF g # <<>> THEN g ELSE GetIn(ds, p, i + 1)
SetIn(ds, p, x) == [i \in DOMAIN ds |-> Set(ds[i], p, 1, x)]

\* ---- equality
\* same value; ord: the order of members counts
RECURSIVE SameValue(_, _, _)
SameValue(a, b, ord) ==
  /\ a.k = b.k /\ a.v = b.v /\ Len(a.m) = Len(b.m)
  /\ IF a.k = "obj" /\ ~ord
     THEN \A i \in 1..Len(a.m) : LET j == MemberAt(b.m, a.m[i].n, 1) IN j # 0 /\ SameValue(a.m[i].c, b.m[j].c, ord)
     ELSE \A i \in 1..Len(a.m) : a.m[i].n = b.m[i].n /\ SameValue(a.m[i].c, b.m[i].c, ord)
\* written with the same literals (whitespace, and unless ord the order of members, aside)
RECURSIVE SameText(_, _, _)
SameText(a, b, ord) ==
  /\ a.k = b.k /\ a.r = b.r /\ Len(a.m) = Len(b.m)
  /\ IF a.k = "obj" /\ ~ord
     THEN \A i \in 1..Len(a.m) : LET j == MemberAt(b.m, a.m[i].n, 1) IN j # 0 /\ a.m[i].rn = b.m[j].rn /\ SameText(a.m[i].c, b.m[j].c, ord)
     ELSE \A i \in 1..Len(a.m) : a.m[i].rn = b.m[i].rn /\ SameText(a.m[i].c, b.m[i].c, ord)
AllSame(a, b, ord) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameValue(a[i], b[i], ord)
AllText(a, b, ord) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameText(a[i], b[i], ord)

\* ---- matchers: [kind, paths: <<[p, s]>>, miss, typ, ph, phok, cb: <<[arg, res, err]>>]
TypeMark(g) == LET s == "<Type:" \o g \o ">" IN Scalar("str", s)
\* one path: [ds, err, called]
One(ds, m, pt) ==
  LET hit == GetIn(ds, pt.s, 1) IN
  IF hit = <<>> THEN [ds |-> ds, err |-> ~m.miss]
  ELSE CASE m.kind = "any" -> [ds |-> IF m.phok THEN SetIn(ds, pt.s, m.ph) ELSE ds, err |-> ~m.phok]
         [] m.kind = "type" -> IF hit[1].g = m.typ THEN [ds |-> SetIn(ds, pt.s, TypeMark(m.typ)), err |-> FALSE]
                               ELSE [ds |-> ds, err |-> TRUE]
         [] m.kind = "custom" -> IF m.cb = <<>> \/ m.cb[Len(m.cb)].err THEN [ds |-> ds, err |-> TRUE]
                                 ELSE [ds |-> SetIn(ds, pt.s, m.cb[Len(m.cb)].res), err |-> FALSE]
RECURSIVE Paths(_, _, _, _)
Paths(ds, m, i, errs) ==
  IF i > Len(m.paths) \/ (FirstOnly /\ i > 1) THEN [ds |-> ds, errs |-> errs]
  ELSE LET o == One(ds, m, m.paths[i])
       IN Paths(o.ds, m, i + 1, IF o.err THEN errs \cup {<<m.kind, m.paths[i].p>>} ELSE errs)
\* all matchers, left to right
RECURSIVE Apply(_, _, _, _, _)
Apply(ds, ms, i, errs, keep) ==
  IF i > Len(ms) THEN [ds |-> ds, errs |-> errs]
  ELSE LET o == Paths(ds, ms[i], 1, {})
       IN Apply(IF o.errs = {} \/ keep THEN o.ds ELSE ds, ms, i + 1, errs \cup o.errs, keep)
Masked(ds, ms) == Apply(ds, ms, 1, {}, KeepFailed)
=============================================================================
