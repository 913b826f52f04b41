--------------------------------- MODULE Loc ---------------------------------
(* Where a snapshot lives: a function of the calling test file, the test name and the options, nothing else. *)
EXTENDS Text

SnapExt == ".snap"

\* ---- filepath.Join / Clean on "/"-separated paths ----
RECURSIVE SplitSlash(_, _, _)
SplitSlash(p, i, cur) == IF i > Len(p) THEN <<cur>>
                         ELSE IF Ch(p, i) = "/" THEN <<cur>> \o SplitSlash(p, i + 1, "")
                         ELSE SplitSlash(p, i + 1, cur \o Ch(p, i))
IsAbs(p) == HasPrefix(p, "/")
RECURSIVE CleanParts(_, _, _)
CleanParts(ps, acc, abs) ==
  IF ps = <<>> THEN acc
  ELSE LET x == Head(ps) IN
    IF x = "" \/ x = "." THEN CleanParts(Tail(ps), acc, abs)
    ELSE IF x = ".." THEN
           IF acc # <<>> /\ acc[Len(acc)] # ".." THEN CleanParts(Tail(ps), SubSeq(acc, 1, Len(acc) - 1), abs)
           ELSE IF abs THEN CleanParts(Tail(ps), acc, abs)
           ELSE CleanParts(Tail(ps), Append(acc, ".."), abs)
    ELSE CleanParts(Tail(ps), Append(acc, x), abs)
RECURSIVE JoinParts(_)
JoinParts(ps) == IF ps = <<>> THEN "" ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o "/" \o JoinParts(Tail(ps))
CleanPath(p) == LET abs == IsAbs(p) cp == JoinParts(CleanParts(SplitSlash(p, 1, ""), <<>>, abs)) IN
                IF abs THEN "/" \o cp ELSE IF cp = "" THEN "." ELSE cp
JoinPath(a, b) == CleanPath(a \o "/" \o b)

\* ---- the location function ----
\* src: directory of the calling test file; dir: the Dir option ("%default" when absent)
DirFor(src, dir) == LET d == IF dir = "%default" THEN "__snapshots__" ELSE dir IN
                    IF IsAbs(d) THEN CleanPath(d) ELSE JoinPath(src, d)
\* base: name of the calling test file without its extension; fn, ext: options ("" when absent)
MultiPath(src, base, dir, fn, ext) ==
  JoinPath(DirFor(src, dir), (IF fn = "" THEN base ELSE fn) \o SnapExt \o ext)
\* k: ordinal, as a string
SoloPath(src, t, dir, fn, ext, k) ==
  JoinPath(DirFor(src, dir), (IF fn = "" THEN ReplaceCh(t, "/", "_") ELSE fn) \o "_" \o k \o SnapExt \o ext)
\* the path of a standalone snapshot around its ordinal
SoloHalves(src, t, dir, fn, ext) ==
  <<JoinPath(DirFor(src, dir), (IF fn = "" THEN ReplaceCh(t, "/", "_") ELSE fn) \o "_"), SnapExt \o ext>>
=============================================================================
