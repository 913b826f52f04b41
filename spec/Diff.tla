-------------------------------- MODULE Diff ---------------------------------
(* What a failure report has to be (the relation Explain), and the line diff that produces one (longest matching block,
   recursively; script; hunks; rendering), explicit enough to be checked against the relation.

   Texts are sequences of lines.  A script item is [t, i1, i2, j1, j2]: lines i1+1..i2 of the first text and j1+1..j2 of
   the second, t one of "=", "-", "+", "!" (replaced).  A report is a sequence of items [k, l]: k = "-" or "+" or " " with l a
   line, or k = "@" with l = <<start, length, start, length>>, the ranges that the items up to the next "@" cover. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Popular,     \* texts of at least this many lines have popular lines (0: never)
  PopularDiv,  \* in a second text of n lines those that occur more than n / PopularDiv + 1 times
  Broken       \* "": the algorithm as it is; otherwise the name of a mistake

Max(x, y) == IF x > y THEN x ELSE y
Min(x, y) == IF x < y THEN x ELSE y

------------------------------------------------------------------------------
(* The relation *)

\* the lines a[i+1..] and b[j+1..] are the same, n of them
SameRun(a, i, b, j, n) == i + n <= Len(a) /\ j + n <= Len(b) /\ \A x \in 1..n : a[i + x] = b[j + x]

\* positions in the first text reachable from S by passing over lines both texts have; d = position in the second - in the first
RECURSIVE Pass(_, _, _, _, _)
Pass(a, b, S, d, i) == IF i >= Len(a) THEN S
                       ELSE Pass(a, b, IF i \in S /\ i + d + 1 <= Len(b) /\ a[i + 1] = b[i + d + 1] THEN S \cup {i + 1} ELSE S, d, i + 1)

Positions(S, a, b, d) == {i \in S : i <= Len(a) /\ i + d <= Len(b)}

\* 0: items p.. explain how a becomes b from the positions S; otherwise the index of the first item that cannot be explained.
\* hdr: unmarked lines may be passed over between hunks only; otherwise anywhere.  open: what the current hunk has to end at.
RECURSIVE Walk(_, _, _, _, _, _, _, _)
Walk(items, p, a, b, S, d, hdr, end) ==
  IF S = {} THEN p - 1
  ELSE IF p > Len(items)
  THEN LET E == IF hdr THEN {i \in S : end = <<>> \/ (i = end[1] /\ i + d = end[2])} ELSE S IN
       IF \E i \in E : Len(a) - i = Len(b) - (i + d) /\ SameRun(a, i, b, i + d, Len(a) - i) THEN 0 ELSE p
  ELSE LET it == items[p] IN
       IF it.k = "@"
       THEN LET s1 == IF it.l[2] = 0 THEN it.l[1] ELSE it.l[1] - 1
                s2 == IF it.l[4] = 0 THEN it.l[3] ELSE it.l[3] - 1
                E == {i \in S : /\ (end = <<>> \/ (i = end[1] /\ i + d = end[2]))
                                /\ s1 >= i /\ s1 - i = s2 - (i + d) /\ SameRun(a, i, b, i + d, s1 - i)}
            IN IF E = {} THEN p ELSE Walk(items, p + 1, a, b, {s1}, s2 - s1, hdr, <<s1 + it.l[2], s2 + it.l[4]>>)
       ELSE LET T == CASE it.k = "-" -> {i + 1 : i \in {x \in S : x < Len(a) /\ a[x + 1] = it.l}}
                       [] it.k = "+" -> {i \in S : i + d < Len(b) /\ b[i + d + 1] = it.l}
                       [] it.k = " " -> {i + 1 : i \in {x \in S : x < Len(a) /\ x + d < Len(b) /\ a[x + 1] = it.l /\ b[x + d + 1] = it.l}}
                       [] OTHER -> {}
                d2 == CASE it.k = "-" -> d - 1 [] it.k = "+" -> d + 1 [] OTHER -> d
            IN Walk(items, p + 1, a, b, IF hdr THEN T ELSE Pass(a, b, T, d2, 0), d2, hdr, end)

HasHdr(items) == \E p \in 1..Len(items) : items[p].k = "@"
Explain(items, a, b) == LET hdr == HasHdr(items) IN Walk(items, 1, a, b, IF hdr THEN {0} ELSE Pass(a, b, {0}, 0, 0), 0, hdr, <<>>)
Count(items, k) == Cardinality({p \in 1..Len(items) : items[p].k = k})

\* scripts
ItemOK(o, a, b) == /\ 0 <= o.i1 /\ o.i1 <= o.i2 /\ o.i2 <= Len(a) /\ 0 <= o.j1 /\ o.j1 <= o.j2 /\ o.j2 <= Len(b)
                   /\ (o.t = "=" => o.i2 - o.i1 = o.j2 - o.j1 /\ SameRun(a, o.i1, b, o.j1, o.i2 - o.i1))
                   /\ (o.t = "-" => o.j1 = o.j2) /\ (o.t = "+" => o.i1 = o.i2)
Joined(os) == \A p \in 2..Len(os) : os[p].i1 = os[p - 1].i2 /\ os[p].j1 = os[p - 1].j2
Tiles(os, a, b) == /\ Joined(os) /\ \A p \in 1..Len(os) : ItemOK(os[p], a, b)
                   /\ IF os = <<>> THEN a = <<>> /\ b = <<>> ELSE os[1].i1 = 0 /\ os[1].j1 = 0 /\ os[Len(os)].i2 = Len(a) /\ os[Len(os)].j2 = Len(b)
RECURSIVE Replay(_, _, _)
Replay(os, a, b) == IF os = <<>> THEN <<>>
                    ELSE (IF os[1].t = "=" THEN SubSeq(a, os[1].i1 + 1, os[1].i2) ELSE IF os[1].t = "-" THEN <<>> ELSE SubSeq(b, os[1].j1 + 1, os[1].j2)) \o Replay(Tail(os), a, b)
\* hunks: each is joined, and what lies before, between and after them is the same in both texts
GroupsOK(gs, a, b) ==
  /\ \A g \in 1..Len(gs) : gs[g] # <<>> /\ Joined(gs[g]) /\ \A p \in 1..Len(gs[g]) : ItemOK(gs[g][p], a, b)
  /\ \A g \in 0..Len(gs) : LET i == IF g = 0 THEN 0 ELSE gs[g][Len(gs[g])].i2
                               j == IF g = 0 THEN 0 ELSE gs[g][Len(gs[g])].j2
                               x == IF g = Len(gs) THEN Len(a) ELSE gs[g + 1][1].i1
                               y == IF g = Len(gs) THEN Len(b) ELSE gs[g + 1][1].j1
                           IN i <= x /\ j <= y /\ x - i = y - j /\ SameRun(a, i, b, j, x - i)

------------------------------------------------------------------------------
(* The algorithm *)

Occ(b, l) == Cardinality({j \in 1..Len(b) : b[j] = l})
IsPop(b, l) == Popular > 0 /\ Len(b) >= Popular /\ Occ(b, l) > Len(b) \div PopularDiv + 1

\* the longest run both ranges have, made of lines that are not popular; of several the first in a, then in b
Run(a, b, i, j, ahi, bhi) == LET n == Min(ahi - i, bhi - j)
                                 bad == {x \in 1..n : a[i + x] # b[j + x] \/ IsPop(b, b[j + x])}
                             IN IF bad = {} THEN n ELSE (CHOOSE x \in bad : \A y \in bad : x <= y) - 1
RECURSIVE Back(_, _, _, _), Fwd(_, _, _, _)
Back(a, b, m, lo) == IF m[1] > lo[1] /\ m[2] > lo[2] /\ (a[m[1]] = b[m[2]] \/ (Broken = "extend" /\ m[3] > 0)) THEN Back(a, b, <<m[1] - 1, m[2] - 1, m[3] + 1>>, lo) ELSE m
Fwd(a, b, m, hi) == IF m[1] + m[3] < hi[1] /\ m[2] + m[3] < hi[2] /\ a[m[1] + m[3] + 1] = b[m[2] + m[3] + 1] THEN Fwd(a, b, <<m[1], m[2], m[3] + 1>>, hi) ELSE m
Longest(a, b, alo, ahi, blo, bhi) ==
  LET C == {<<i, j, Run(a, b, i, j, ahi, bhi)>> : i \in alo..(ahi - 1), j \in blo..(bhi - 1)}
      R == {c \in C : c[3] > 0}
      m == IF R = {} THEN <<alo, blo, 0>>
           ELSE CHOOSE c \in R : \A x \in R : c[3] > x[3] \/ (c[3] = x[3] /\ (c[1] < x[1] \/ (c[1] = x[1] /\ c[2] <= x[2])))
  IN Fwd(a, b, Back(a, b, m, <<alo, blo>>), <<ahi, bhi>>)

RECURSIVE Blocks(_, _, _, _, _, _)
Blocks(a, b, alo, ahi, blo, bhi) ==
  LET m == Longest(a, b, alo, ahi, blo, bhi) IN
  IF m[3] = 0 THEN <<>>
  ELSE (IF alo < m[1] /\ blo < m[2] THEN Blocks(a, b, alo, m[1], blo, m[2]) ELSE <<>>)
       \o <<m>>
       \o (IF m[1] + m[3] < ahi /\ m[2] + m[3] < bhi THEN Blocks(a, b, m[1] + m[3], ahi, IF Broken = "recur" THEN m[2] ELSE m[2] + m[3], bhi) ELSE <<>>)

\* blocks that touch are one block
RECURSIVE Merged(_, _)
Merged(bs, acc) == IF bs = <<>> THEN acc
                   ELSE LET x == Head(bs) z == IF acc = <<>> THEN <<0, 0, 0>> ELSE acc[Len(acc)] IN
                        IF acc # <<>> /\ z[1] + z[3] = x[1] /\ (z[2] + z[3] = x[2] \/ Broken = "merge")
                        THEN Merged(Tail(bs), [acc EXCEPT ![Len(acc)] = <<z[1], z[2], z[3] + x[3]>>])
                        ELSE Merged(Tail(bs), Append(acc, x))

Op(t, i1, i2, j1, j2) == [t |-> t, i1 |-> i1, i2 |-> i2, j1 |-> j1, j2 |-> j2]
RECURSIVE Codes(_, _, _)
Codes(bs, i, j) ==
  IF bs = <<>> THEN <<>>
  ELSE LET m == Head(bs)
           t == IF i < m[1] /\ j < m[2] THEN "!" ELSE IF i < m[1] THEN "-" ELSE IF j < m[2] THEN "+" ELSE ""
       IN (IF t = "" THEN <<>> ELSE <<Op(t, i, m[1], j, m[2])>>)
          \o (IF m[3] > 0 THEN <<Op("=", m[1], m[1] + m[3], m[2], m[2] + m[3])>> ELSE <<>>)
          \o Codes(Tail(bs), m[1] + m[3], m[2] + m[3])
Script(a, b) == Codes(Append(Merged(Blocks(a, b, 0, Len(a), 0, Len(b)), <<>>), <<Len(a), Len(b), 0>>), 0, 0)

\* hunks with up to n lines of context
Trim(os, n) ==
  LET o == os[1]
      s == IF o.t = "=" THEN [os EXCEPT ![1] = Op("=", Max(o.i1, o.i2 - n), o.i2, Max(o.j1, o.j2 - n), o.j2)] ELSE os
      q == s[Len(s)]
  IN IF q.t = "=" THEN [s EXCEPT ![Len(s)] = Op("=", q.i1, Min(q.i2, q.i1 + n), q.j1, Min(q.j2, q.j1 + n))] ELSE s
RECURSIVE Split(_, _, _)
Split(os, n, g) ==
  IF os = <<>> THEN IF g = <<>> \/ (Len(g) = 1 /\ g[1].t = "=") \/ (Broken = "group" /\ g[1].t = "=" /\ Len(g) = 2) THEN <<>> ELSE <<g>>
  ELSE LET o == Head(os) IN
       IF o.t = "=" /\ o.i2 - o.i1 > 2 * n
       THEN <<Append(g, Op("=", o.i1, Min(o.i2, o.i1 + n), o.j1, Min(o.j2, o.j1 + n)))>>
            \o Split(Tail(os), n, <<Op("=", Max(o.i1, o.i2 - n), o.i2, Max(o.j1, o.j2 - n), o.j2)>>)
       ELSE Split(Tail(os), n, Append(g, o))
Groups(os, n) == IF os = <<>> THEN <<>> ELSE Split(Trim(os, n), n, <<>>)

\* rendering
Lines(k, s, i1, i2) == [x \in 1..(i2 - i1) |-> [k |-> k, l |-> s[i1 + x]]]
Range(i1, i2) == <<IF i1 = i2 THEN i1 ELSE i1 + 1, i2 - i1>>
RECURSIVE RenderGroup(_, _, _)
RenderGroup(g, a, b) ==
  IF g = <<>> THEN <<>>
  ELSE LET o == g[1] IN
       (CASE o.t = "=" -> Lines(" ", a, o.i1, o.i2)
          [] o.t = "-" -> Lines("-", a, o.i1, o.i2)
          [] o.t = "+" -> Lines("+", b, o.j1, o.j2)
          [] o.t = "!" -> Lines("-", a, o.i1, o.i2) \o (IF Broken = "render" /\ o.i2 - o.i1 > 1 THEN <<>> ELSE Lines("+", b, o.j1, o.j2)))
       \o RenderGroup(Tail(g), a, b)
RECURSIVE Render(_, _, _, _)
Render(gs, a, b, hdr) ==
  IF gs = <<>> THEN <<>>
  ELSE LET g == gs[1] IN
       (IF hdr THEN <<[k |-> "@", l |-> Range(g[1].i1, g[Len(g)].i2) \o Range(g[1].j1, g[Len(g)].j2)]>> ELSE <<>>)
       \o RenderGroup(g, a, b) \o Render(Tail(gs), a, b, hdr)
=============================================================================
