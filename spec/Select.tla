------------------------------- MODULE Select --------------------------------
(* `go test -run PATTERN`: which tests a pattern selects.

   A pattern is a sequence of alternatives (split at top-level "|"), each a sequence of level expressions (split at
   "/").  The regular expressions themselves are abstracted: a level expression is a sequence of regular-expression
   alternatives, each [a: anchored at the start, z: anchored at the end, s: literal text] and matches like an unanchored
   regular expression unless anchored.  The empty sequence of alternatives is "no -run flag": every test is selected. *)
EXTENDS Text

AnyTest == <<>>
IsAny(run) == run = <<>>

AtomMatches(r, x) == IF r.a /\ r.z THEN x = r.s
                     ELSE IF r.a THEN HasPrefix(x, r.s)
                     ELSE IF r.z THEN HasSuffix(x, r.s)
                     ELSE r.s = "" \/ Contains(x, r.s)
LevelMatches(lv, x) == \E i \in 1..Len(lv) : AtomMatches(lv[i], x)

RECURSIVE SplitName(_, _, _)
SplitName(n, i, cur) == IF i > Len(n) THEN <<cur>>
                        ELSE IF Ch(n, i) = "/" THEN <<cur>> \o SplitName(n, i + 1, "")
                        ELSE SplitName(n, i + 1, cur \o Ch(n, i))

\* A test runs when some alternative matches it level by level; levels the name does not have are not consulted
\* (a parent of a selected subtest runs), and levels the pattern does not have match everything.
AltSelects(alt, parts) == \A i \in 1..Len(parts) : i > Len(alt) \/ LevelMatches(alt[i], parts[i])
Selected(run, name) == IsAny(run) \/ LET parts == SplitName(name, 1, "") IN \E i \in 1..Len(run) : AltSelects(run[i], parts)
=============================================================================
