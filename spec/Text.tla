-------------------------------- MODULE Text --------------------------------
(* Strings (TLC represents them as sequences of characters: Len, SubSeq and \o work on them) and the
   natural order on identifiers.  Pure operators, no state. *)
EXTENDS Naturals, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropPrefix(s, p) == SubSeq(s, Len(p) + 1, Len(s))
DropSuffix(s, p) == SubSeq(s, 1, Len(s) - Len(p))
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* last index of the one-character string c in s, 0 when absent
RECURSIVE LastCh(_, _, _)
LastCh(s, c, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE LastCh(s, c, i - 1)
DirOf(p) == LET i == LastCh(p, "/", Len(p)) IN IF i = 0 THEN "." ELSE SubSeq(p, 1, i - 1)
BaseOf(p) == LET i == LastCh(p, "/", Len(p)) IN SubSeq(p, i + 1, Len(p))

\* last position at which p occurs in s, 0 when absent
RECURSIVE LastPos(_, _, _)
LastPos(s, p, i) == IF i < 1 THEN 0
                    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE LastPos(s, p, i - 1)
LastIndex(s, p) == LastPos(s, p, Len(s) - Len(p) + 1)

RECURSIVE MapCh(_, _, _, _)
MapCh(s, from, to, i) == IF i > Len(s) THEN ""
                         ELSE (IF Ch(s, i) = from THEN to ELSE Ch(s, i)) \o MapCh(s, from, to, i + 1)
ReplaceCh(s, from, to) == MapCh(s, from, to, 1)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [c \in Digits |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                                [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
IsDigit(c) == c \in Digits
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(Ch(s, i))

\* byte order of one printable ASCII character
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiIdx == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]

\* ---- natural order: maximal digit runs compare as numbers, everything else bytewise ----
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i > Len(s) \/ ~IsDigit(Ch(s, i)) THEN i - 1 ELSE RunEnd(s, i + 1)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

\* bytewise less
RECURSIVE BLess(_, _, _)
BLess(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF Ch(a, i) = Ch(b, i) THEN BLess(a, b, i + 1)
                  ELSE AsciiIdx[Ch(a, i)] < AsciiIdx[Ch(b, i)]
NumLess(a, b) == LET x == StripZeros(a) y == StripZeros(b) IN
                 IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE BLess(x, y, 1)
NumEq(a, b) == StripZeros(a) = StripZeros(b)

RECURSIVE NatCmp(_, _, _, _)
\* -1, 0, 1 as 0, 1, 2
NatCmp(a, i, b, j) ==
  IF i > Len(a) /\ j > Len(b) THEN 1
  ELSE IF i > Len(a) THEN 0
  ELSE IF j > Len(b) THEN 2
  ELSE IF IsDigit(Ch(a, i)) /\ IsDigit(Ch(b, j))
       THEN LET ea == RunEnd(a, i) eb == RunEnd(b, j)
                x == SubSeq(a, i, ea) y == SubSeq(b, j, eb)
            IN IF NumEq(x, y) THEN NatCmp(a, ea + 1, b, eb + 1)
               ELSE IF NumLess(x, y) THEN 0 ELSE 2
       ELSE IF Ch(a, i) = Ch(b, j) THEN NatCmp(a, i + 1, b, j + 1)
       ELSE IF AsciiIdx[Ch(a, i)] < AsciiIdx[Ch(b, j)] THEN 0 ELSE 2
NatLess(a, b) == NatCmp(a, 1, b, 1) = 0

=============================================================================
