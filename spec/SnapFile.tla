------------------------------ MODULE SnapFile ------------------------------
(* The multi-entry snapshot file.  A file is the sequence of lines obtained by splitting its bytes at every "\n"
   (so a file that ends in a newline has "" as its last line; the map bytes -> lines is a bijection).

   An entry is framed as   <blank> [name - n] <body lines> ---   and the file is parsed STRUCTURALLY: a line
   `[name - n]` is a header only outside a body, and a body extends to the first line equal to "---".  Everything outside entries
   is inert text.  Body lines never equal "---" because Escape maps every such line away, injectively. *)
EXTENDS Text

Terminator == "---"
EscTail == "-/-/-/"

Header(name, k) == "[" \o name \o " - " \o ToString(k) \o "]"
IsBracketed(l) == Len(l) >= 2 /\ Ch(l, 1) = "[" /\ Ch(l, Len(l)) = "]"

\* "[name - 12]": id of the entry and its parts
IdOf(h) == SubSeq(h, 2, Len(h) - 1)
IsSlotHeader(h) == /\ IsBracketed(h)
                   /\ LET id == IdOf(h) p == LastIndex(id, " - ") IN
                      /\ p > 0
                      /\ p + 3 <= Len(id)
                      /\ AllDigits(SubSeq(id, p + 3, Len(id)))
NameOf(h) == LET id == IdOf(h) IN SubSeq(id, 1, LastIndex(id, " - ") - 1)

\* lines of the form "/"^k "-/-/-/", k >= 1
RECURSIVE AllSlash(_, _)
AllSlash(s, n) == IF n = 0 THEN TRUE ELSE Ch(s, n) = "/" /\ AllSlash(s, n - 1)
IsEscForm(l) == Len(l) > Len(EscTail) /\ HasSuffix(l, EscTail) /\ AllSlash(l, Len(l) - Len(EscTail))

CONSTANT InjectiveEscape   \* TRUE: the scheme of the current tree.  FALSE: the scheme of the pinned tree

EscLine(l) == IF l = Terminator THEN "/" \o EscTail
              ELSE IF InjectiveEscape /\ IsEscForm(l) THEN "/" \o l
              ELSE l
UnescLine(l) == IF l = "/" \o EscTail THEN Terminator
                ELSE IF InjectiveEscape /\ IsEscForm(l) THEN SubSeq(l, 2, Len(l))
                ELSE l
Escape(val) == TLCEval([i \in 1..Len(val) |-> EscLine(val[i])])
Unescape(body) == TLCEval([i \in 1..Len(body) |-> UnescLine(body[i])])

EmptyFile == <<"">>

\* index of the first line equal to x at or after i, 0 when there is none
RECURSIVE NextLine(_, _, _)
NextLine(L, x, i) == IF i > Len(L) THEN 0 ELSE IF L[i] = x THEN i ELSE NextLine(L, x, i + 1)

\* The entries of a file, in order: [h: header line, at: its index, end: index of its terminator]
RECURSIVE ParseFrom(_, _, _)
ParseFrom(L, i, acc) ==
  IF i > Len(L) THEN acc
  ELSE IF IsSlotHeader(L[i])
       THEN LET e == NextLine(L, Terminator, i + 1) IN
            IF e = 0 THEN acc          \* no terminator: the rest is not an entry
            ELSE ParseFrom(L, e + 1, Append(acc, [h |-> L[i], at |-> i, end |-> e]))
       ELSE ParseFrom(L, i + 1, acc)
Parse(L) == ParseFrom(L, 1, <<>>)
Entries(L) == Parse(L)
Body(L, e) == SubSeq(L, e.at + 1, e.end - 1)
EntryList(L) == LET es == Entries(L) IN TLCEval([i \in 1..Len(es) |-> [h |-> es[i].h, body |-> Body(L, es[i])]])

\* index in Entries(L) of the first entry with header h, 0 when absent
RECURSIVE FindIn(_, _, _)
FindIn(es, h, i) == IF i > Len(es) THEN 0 ELSE IF es[i].h = h THEN i ELSE FindIn(es, h, i + 1)

Frame(h, body) == <<h>> \o body \o <<Terminator, "">>
AppendEntry(L, h, body) == L \o Frame(h, body)
ReplaceBody(L, e, body) == SubSeq(L, 1, e.at) \o body \o SubSeq(L, e.end, Len(L))

\* a file holding exactly these entries
RECURSIVE Render(_, _, _)
Render(el, i, acc) == IF i > Len(el) THEN acc ELSE Render(el, i + 1, AppendEntry(acc, el[i].h, el[i].body))
RenderFile(el) == Render(el, 1, EmptyFile)
=============================================================================
