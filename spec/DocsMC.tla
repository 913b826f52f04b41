------------------------------- MODULE DocsMC --------------------------------
(* The laws of matchers, for every small document and every short list of matchers. *)
EXTENDS Docs

CONSTANTS Deep,     \* documents of depth 2 (one matcher) or of depth 1 (two matchers)
          Full      \* more scalars

Str(s) == Scalar("str", s)
Num(n) == Scalar("num", n)
Scalars == IF Full THEN {Num("1"), Num("2"), Str("x")} ELSE {Num("1"), Str("x")}
Mem(n, c) == [n |-> n, rn |-> n, c |-> c]
Node(k, ms) == [k |-> k, v |-> "", r |-> "", g |-> k, m |-> ms]
Containers(S) == {Node("obj", <<>>), Node("arr", <<>>)} \cup {Node("obj", <<Mem(n, c)>>) : n \in {"a", "b"}, c \in S} \cup {Node("arr", <<Mem("", c)>>) : c \in S}
                 \cup {Node("obj", <<Mem(n[1], c), Mem(n[2], d)>>) : n \in {<<"a", "b">>, <<"b", "a">>}, c \in S, d \in S} \cup {Node("arr", <<Mem("", c), Mem("", d)>>) : c \in S, d \in S}
D0 == Scalars
D1 == D0 \cup Containers(D0)
D2 == D1 \cup Containers(D1)

K(s) == [t |-> "any", s |-> s, i |-> IF s = "0" THEN 0 ELSE IF s = "1" THEN 1 ELSE 99]
P(s) == [p |-> ToString(s), s |-> [i \in DOMAIN s |-> K(s[i])]]
PathSet == {<<"a">>, <<"b">>, <<"0">>, <<"1">>, <<"a", "a">>, <<"a", "0">>, <<"b", "a">>, <<"0", "b">>, <<"1", "1">>}
M(kind, ps, miss, typ) == [kind |-> kind, paths |-> ps, miss |-> miss, typ |-> typ, ph |-> Str("<Any value>"), phok |-> TRUE,
                           cb |-> <<[arg |-> Str(""), res |-> Node("arr", <<Mem("", Num("7"))>>), err |-> typ = "err"]>>]
Singles == {M("any", <<P(p)>>, miss, "") : p \in PathSet, miss \in BOOLEAN} \cup {M("type", <<P(p)>>, FALSE, t) : p \in PathSet, t \in {"string", "float64", "obj"}}
           \cup {M("custom", <<P(p)>>, FALSE, t) : p \in PathSet, t \in {"", "err"}}
Twos == {M("any", <<P(p), P(q)>>, miss, "") : p \in PathSet, q \in PathSet, miss \in BOOLEAN}
Pairs == {<<x, y>> : x \in Singles, y \in Singles}

VARIABLES doc, ms, ready
vars == <<doc, ms, ready>>
Init == /\ doc = Str("x") /\ ready = FALSE
        /\ ms \in (IF Deep THEN {<<x>> : x \in Singles} ELSE Pairs \cup {<<x>> : x \in Twos})
Next == ~ready /\ ready' = TRUE /\ ms' = ms /\ doc' \in (IF Deep THEN D2 ELSE D1)
Spec == Init /\ [][Next]_vars

Res == Masked(<<doc>>, ms)
Good == Res.errs = {}
Targets == UNION {{ms[i].paths[j] : j \in DOMAIN ms[i].paths} : i \in DOMAIN ms}
Hit(d, p) == Get(d, p, 1)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
AllPaths == {P(p).s : p \in PathSet}

\* a value that no target covers or lies under keeps its value, its place and its neighbours
RECURSIVE Shape(_, _, _)
Same(a, b) == SameValue(a, b, TRUE)
Shape(a, b, at) == \* a and b agree outside the targets
  IF \E t \in Targets : t.s = at THEN TRUE
  ELSE IF ~\E t \in Targets : Len(at) < Len(t.s) /\ \A i \in 1..Len(at) : at[i].s = t.s[i].s THEN Same(a, b)
  ELSE /\ a.k = b.k /\ a.v = b.v /\ Len(a.m) = Len(b.m)
       /\ \A i \in 1..Len(a.m) : a.m[i].n = b.m[i].n /\
            Shape(a.m[i].c, b.m[i].c, Append(at, K(IF a.k = "arr" THEN (IF i = 1 THEN "0" ELSE "1") ELSE a.m[i].n)))
Frame == Shape(doc, Res.ds[1], <<>>)

\* a single target holds the placeholder
Holds == (Good /\ Len(ms) = 1 /\ Len(ms[1].paths) = 1 /\ Hit(doc, ms[1].paths[1].s) # <<>>) =>
           LET x == Hit(Res.ds[1], ms[1].paths[1].s) IN
           x # <<>> /\ Same(x[1], CASE ms[1].kind = "any" -> ms[1].ph [] ms[1].kind = "type" -> TypeMark(ms[1].typ) [] ms[1].kind = "custom" -> ms[1].cb[1].res)
\* errors: exactly the paths that miss (unless that is allowed), have another type or that the callback rejects
Errors == Len(ms) = 1 => Res.errs = {<<ms[1].kind, t.p>> : t \in {t \in Targets :
             LET x == Hit(doc, t.s) IN
             IF x = <<>> THEN ~ms[1].miss ELSE (ms[1].kind = "type" /\ x[1].g # ms[1].typ) \/ (ms[1].kind = "custom" /\ ms[1].cb[1].err)}}
          \/ Len(ms[1].paths) = 2   \* the second path may lie under the first
\* every path of a matcher is handled
EveryPath == (Good /\ Len(ms) = 1) =>
               \A t \in Targets : (Hit(doc, t.s) # <<>> /\ \A u \in Targets : u = t \/ ~Prefix(u.s, t.s)) =>
                 LET x == Hit(Res.ds[1], t.s) IN x # <<>> /\ (ms[1].kind = "any" => Same(x[1], ms[1].ph))
\* left to right
LeftToRight == Good => Masked(Masked(<<doc>>, <<ms[1]>>).ds, SubSeq(ms, 2, Len(ms))).ds = Res.ds
\* masked values never influence, others always do
Swap(x) == Set(doc, ms[1].paths[1].s, 1, x)
NoInfluence == (Good /\ Len(ms) = 1 /\ ms[1].kind # "custom") =>
                 \A x \in D1 : LET d2 == Swap(x) r2 == Masked(<<d2>>, ms) IN
                   (Hit(doc, ms[1].paths[1].s) # <<>> /\ Len(ms[1].paths) = 1 /\ r2.errs = {}) => r2.ds = Res.ds
Influence == (Good /\ Len(ms) = 1) =>
               \A p \in AllPaths : (Hit(doc, p) # <<>> /\ ~\E t \in Targets : Prefix(t.s, p) \/ Prefix(p, t.s)) =>
                 \A x \in D0 : ~Same(x, Hit(doc, p)[1]) => Masked(<<Set(doc, p, 1, x)>>, ms).ds # Res.ds
=============================================================================
