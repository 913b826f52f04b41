------------------------------ MODULE DocsTrace ------------------------------
(* Checks traces of MatchJSON, MatchStandaloneJSON and MatchYAML calls recorded from the real code against Docs.

   The state is what the slots hold: the document the specification expects there and the text the code stored.  A call is
   judged from the documents alone: what its input becomes under its matchers decides the outcome, and what the code stored
   has to parse to it.  Texts are compared with each other, never with a text computed here: documents that have to be
   stored alike must be, and a slot is written by the call that addresses it and by nothing else. *)
EXTENDS Docs, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Data)

VARIABLES tr, l,
          proc,    \* [ci, env]
          cnt,     \* ordinals of the current executions: <<file kind, test>> -> calls
          slots,   \* key -> [ds, fam, fmt, text]
          made     \* everything stored so far in this trace: {[ds, fam, fmt, ord, text]}
tvars == <<tr, l, proc, cnt, slots, made>>

Ev == Data[tr].ev[l]
Cl(c) == \E i \in 1..Len(Data[tr].clauses) : Data[tr].clauses[i] = c
Want(cl, ok, what, expected, got) ==
  IF ~Cl(cl) \/ ok THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([tr |-> tr, l |-> l, cl |-> cl, what |-> what, expected |-> ToString(expected), got |-> ToString(got)])>>) /\ FALSE
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
SetOf(s) == {s[i] : i \in 1..Len(s)}

Creatable(upd) == ~proc.ci /\ (upd = "unset" \/ upd = "true")
Updatable(upd) == ~proc.ci /\ (upd = "true" \/ (upd = "unset" /\ proc.env = "true"))

TInit == /\ tr \in 1..N /\ l = 1 /\ proc = [ci |-> FALSE, env |-> ""] /\ cnt = <<>> /\ slots = <<>> /\ made = {} /\ TLCSet(tr, 0)
Step(e) == /\ l <= Len(Data[tr].ev) /\ Ev.ev = e /\ l' = l + 1 /\ tr' = tr

TStart == Step("start") /\ proc' = [ci |-> Ev.ci, env |-> Ev.env] /\ cnt' = <<>> /\ UNCHANGED <<slots, made>>
TExit == Step("exit") /\ UNCHANGED <<proc, cnt, slots, made>>
TEnd == Step("end") /\ cnt' = [x \in {y \in DOMAIN cnt : y[2] # Ev.t} |-> cnt[x]] /\ UNCHANGED <<proc, slots, made>>

Signalled(e) == IF e.nerr = 1 /\ e.nadd = 0 /\ e.nupd = 0 /\ e.nother = 0 THEN "failed"
                ELSE IF e.nerr = 0 /\ e.nadd = 1 /\ e.nupd = 0 /\ e.nother = 0 THEN "added"
                ELSE IF e.nerr = 0 /\ e.nadd = 0 /\ e.nupd = 1 /\ e.nother = 0 THEN "updated"
                ELSE IF e.nerr = 0 /\ e.nadd = 0 /\ e.nupd = 0 /\ e.nother = 0 THEN "passed"
                ELSE "?"

(* The input as the specification sees it.  e.ds: its documents; e.ord: the order of members is kept (YAML, unsorted
   JSON); e.fam: inputs of one family are written alike where nothing masks them (for YAML without a matcher that applies
   it is the text itself); e.fmt: the format options. *)
Solo(e) == e.api = "SJ"
KeyOf(e, k) == IF Solo(e) THEN "/d1/" \o e.us \o "_" \o ToString(k) \o ".snap.json" ELSE "[" \o e.t \o " - " \o ToString(k) \o "]"

\* expected content of the slot: [fail, must, ds]
Exp(e) == LET a == Apply(e.ds, e.ms, 1, {}, FALSE) b == Apply(e.ds, e.ms, 1, {}, TRUE)
          IN [fail |-> a.errs # {}, must |-> a.errs \cap b.errs, ds |-> a.ds]
\* the value a callback was given is the one at its path, after the matchers before it
CbWrong(e) == {i \in 1..Len(e.ms) : /\ e.ms[i].kind = "custom" /\ e.ms[i].cb # <<>>
                 /\ LET before == Apply(e.ds, SubSeq(e.ms, 1, i - 1), 1, {}, FALSE)
                        hit == GetIn(before.ds, e.ms[i].paths[1].s, 1) IN
                    before.errs = {} /\ (hit = <<>> \/ ~SameValue(hit[1], e.ms[i].cb[1].arg, FALSE))}

TMatch ==
  /\ Step("match")
  /\ \E ck \in {<<IF Solo(Ev) THEN "s" ELSE "m", Ev.t>>} : \E k \in {At(cnt, ck, 0) + 1} : \E x \in {IF Ev.valid THEN Exp(Ev) ELSE [fail |-> TRUE, must |-> {}, ds |-> <<>>]} :
     LET e == Ev
         key == KeyOf(e, k)
         s == Signalled(e)
         has == key \in DOMAIN slots
         old == slots[key]
         mine == [i \in {j \in 1..Len(e.slots) : e.slots[j].key = key} |-> e.slots[i]]
         wrote == DOMAIN mine # {}
         now == mine[CHOOSE i \in DOMAIN mine : TRUE]
         \* has to pass: the slot holds a document that is written alike
         alike == has /\ AllText(x.ds, old.ds, e.ord) /\ e.fam = old.fam /\ e.fmt = old.fmt
         differs == has /\ ~AllSame(x.ds, old.ds, e.ord)
         want == IF x.fail THEN {"failed"}
                 ELSE IF ~has THEN {IF Creatable(e.upd) THEN "added" ELSE "failed"}
                 ELSE IF alike THEN {"passed"}
                 ELSE {IF Updatable(e.upd) THEN "updated" ELSE "failed"} \cup (IF differs THEN {} ELSE {"passed"})
         twins == {m \in made : m.fam = e.fam /\ m.fmt = e.fmt /\ AllText(m.ds, x.ds, e.ord)}
     IN /\ Want("nopanic", e.panic = "", "panic", "", e.panic)
        /\ Want("one", s # "?", "signal", "exactly one of passed/added/updated/failed", <<e.nerr, e.nadd, e.nupd, e.nother>>)
        /\ Want("valid", e.valid \/ s = "failed", "invalid input accepted", "failed", s)
        /\ Want("fails", x.fail => s = "failed", "the call has to fail", <<e.valid, x.must>>, s)
        /\ Want("out", s \in want, "outcome", <<want, x>>, <<s, e.err>>)
        /\ Want("named", x.must \subseteq {<<p[1], p[2]>> : p \in SetOf(e.named)}, "failing matchers named", x.must, e.err)
        \* nothing is written but the slot, and that only when the call says so
        /\ Want("inert", s \in {"added", "updated"} \/ (e.slots = <<>> /\ e.touched = <<>> /\ e.newdirs = <<>>), "a call that failed or passed wrote", "nothing", <<e.touched, e.slots>>)
        /\ Want("slot", \A i \in 1..Len(e.slots) : e.slots[i].key = key /\ ~e.slots[i].del, "slots written", key, e.slots)
        /\ Want("slot", s # "added" \/ (~has /\ wrote), "the slot of an added snapshot", key, e.slots)
        /\ Want("slot", s # "updated" \/ has, "the slot of an updated snapshot", key, e.slots)
        /\ Want("tree", s \in {"added", "updated"} /\ ~x.fail /\ wrote => now.ok /\ AllSame(now.ds, x.ds, e.ord), "value stored", x.ds, IF wrote THEN now ELSE <<>>)
        /\ Want("tree", s = "updated" /\ ~x.fail /\ ~wrote => AllSame(old.ds, x.ds, e.ord), "value kept by an update", x.ds, IF has THEN old.ds ELSE <<>>)
        /\ Want("text", wrote /\ ~x.fail => \A m \in twins : m.text = now.text, "text stored for an equal document", [m \in twins |-> m.text], IF wrote THEN now.text ELSE <<>>)
        /\ Want("verbatim", wrote /\ e.verb => now.text = e.text, "text stored for the input", e.text, IF wrote THEN now.text ELSE <<>>)
        /\ Want("caller", e.bufok, "caller's data modified", TRUE, e.bufok)
        /\ Want("cb", ~e.valid \/ CbWrong(e) = {}, "value given to a callback", e.ds, e.ms)
        /\ cnt' = Put(cnt, ck, k)
        /\ IF wrote /\ ~now.del
           THEN /\ slots' = Put(slots, key, [ds |-> IF x.fail THEN now.ds ELSE x.ds, fam |-> e.fam, fmt |-> e.fmt, text |-> now.text])
                /\ made' = (IF x.fail THEN made ELSE made \cup {[ds |-> x.ds, fam |-> e.fam, fmt |-> e.fmt, text |-> now.text]})
           ELSE UNCHANGED <<slots, made>>
        /\ UNCHANGED proc

TNext == /\ (TStart \/ TMatch \/ TEnd \/ TExit) /\ TLCSet(tr, l)
TSpec == TInit /\ [][TNext]_tvars

Accepted == LET stuck == {i \in 1..N : TLCGet(i) # Len(Data[i].ev)} IN
            /\ PrintT(<<"TRACES", ToJson([n |-> N, stuck |-> [i \in 1..N |-> IF i \in stuck THEN TLCGet(i) + 1 ELSE 0]])>>)
            /\ stuck = {}
=============================================================================
