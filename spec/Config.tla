------------------------------- MODULE Config -------------------------------
(* Configurations: nested sections with lexical scope, and what the scalars  *)
(* in them denote.  A node of a document is                                  *)
(*   [t |-> "map", ks, vs]   a section, keys and nodes in step               *)
(*   [t |-> "seq", vs]       a list                                          *)
(*   [t |-> "leaf", text, q] a scalar; text is a sequence of characters, q   *)
(*                           says it is quoted                               *)
(* and a place in it is a sequence of steps [k |-> key] or [i |-> index].    *)
EXTENDS SI
Val(k, v, u) == [t |-> "val", k |-> k, v |-> v, unit |-> u]

(* --- scalars --------------------------------------------------------------- *)
CfgUnits == {<<"H", "z">>, <<"V">>, <<"A">>, <<"m">>, <<"s">>, <<"W">>, <<"O", "h", "m">>}
IsPrefix(c) == \E p \in Prefixes : p[1] = c
PrefixExp(c) == (CHOOSE p \in Prefixes : p[1] = c)[2]
RECURSIVE Lead(_)
Lead(s) == IF s # <<>> /\ Head(s) = " " THEN Lead(Tail(s)) ELSE s
(* what follows the number: power of ten and unit *)
Suffix(r) ==
    LET s == Lead(r) IN
    IF s = <<>> THEN [ok |-> r = <<>>, e |-> 0, unit |-> NoUnit]
    ELSE IF s = <<"%">> THEN [ok |-> TRUE, e |-> -2, unit |-> NoUnit]
    ELSE IF s = <<"p", "p", "m">> THEN [ok |-> TRUE, e |-> -6, unit |-> NoUnit]
    ELSE IF s = <<"p", "p", "b">> THEN [ok |-> TRUE, e |-> -9, unit |-> NoUnit]
    ELSE IF Len(s) = 1 /\ IsPrefix(s[1]) THEN [ok |-> TRUE, e |-> PrefixExp(s[1]), unit |-> NoUnit]
    ELSE IF s \in CfgUnits THEN [ok |-> TRUE, e |-> 0, unit |-> Joined(s)]
    ELSE IF IsPrefix(Head(s)) /\ Tail(s) \in CfgUnits THEN [ok |-> TRUE, e |-> PrefixExp(Head(s)), unit |-> Joined(Tail(s))]
    ELSE [ok |-> FALSE, e |-> 0, unit |-> NoUnit]
(* time intervals: days, hours, minutes, seconds, any of them, in this order *)
SpanWords == << <<{<<"d","a","y","s">>, <<"d","a","y">>}, 86400>>, <<{<<"h","o","u","r","s">>, <<"h","o","u","r">>}, 3600>>,
                <<{<<"m","i","n","u","t","e","s">>, <<"m","i","n","u","t","e">>}, 60>>, <<{<<"s","e","c","o","n","d","s">>, <<"s","e","c","o","n","d">>}, 1>> >>
RECURSIVE WordLen(_)
WordLen(s) == IF s # <<>> /\ Head(s) # " " /\ ~IsDigit(Head(s)) THEN 1 + WordLen(Tail(s)) ELSE 0
RECURSIVE Span(_, _)
Span(s, from) ==
    IF s = <<>> THEN [ok |-> TRUE, v |-> 0]
    ELSE LET n == Number(s) r == Lead(n.rest) w == Take(r, WordLen(r))
             h == {q \in from..4 : w \in SpanWords[q][1]}
         IN IF ~n.ok \/ h = {} \/ Head(s) = "+" THEN [ok |-> FALSE, v |-> 0]
            ELSE LET q == CHOOSE q \in h : TRUE rest == Span(Lead(Drop(r, Len(w))), q + 1) IN
                 [ok |-> rest.ok /\ (Head(s) # "-" \/ q = 1), v |-> AddP(MulP(n.v, SpanWords[q][2]), rest.v)]
(* dates and times by their shape *)
RECURSIVE HasShape(_, _)
HasShape(s, p) == IF p = <<>> THEN s = <<>> ELSE s # <<>> /\ (IF Head(p) = "9" THEN IsDigit(Head(s)) ELSE Head(s) = Head(p)) /\ HasShape(Tail(s), Tail(p))
DateShape == <<"9","9","9","9","-","9","9","-","9","9">>
ClockShape == <<"9","9",":","9","9">>
ClockLong == ClockShape \o <<":","9","9">>
ZeroSec == <<":","0","0">>
Scalar(l) ==
    LET s == l.text n == Number(s) u == Suffix(n.rest) sp == Span(s, 1) IN
    IF l.q THEN Val("text", Joined(s), NoUnit)
    ELSE IF s \in {<<"t","r","u","e">>, <<"f","a","l","s","e">>} THEN Val("bool", Joined(s), NoUnit)
    ELSE IF s \in {<<"n","u","l","l">>, <<"~">>} THEN Val("none", "", NoUnit)
    ELSE IF n.ok /\ u.ok THEN Val("num", MulP(n.v, Pow10(u.e)), u.unit)
    ELSE IF sp.ok THEN Val("span", sp.v, NoUnit)
    ELSE IF HasShape(s, ClockLong) THEN Val("clock", Joined(s), NoUnit)
    ELSE IF HasShape(s, ClockShape) THEN Val("clock", Joined(s \o ZeroSec), NoUnit)
    ELSE IF HasShape(s, DateShape) THEN Val("date", Joined(s), NoUnit)
    ELSE IF HasShape(s, DateShape \o <<" ">> \o ClockShape) THEN Val("when", Joined(s \o ZeroSec), NoUnit)
    ELSE IF HasShape(s, DateShape \o <<" ">> \o ClockLong) \/ HasShape(s, DateShape \o <<"T">> \o ClockLong)
         THEN Val("when", Joined(Take(s, 10) \o <<" ">> \o Drop(s, 11)), NoUnit)
    ELSE Val("text", Joined(s), NoUnit)

(* --- documents -------------------------------------------------------------- *)
IsMap(d) == d.t = "map"
KeyAt(d, k) == FirstIdx(d.ks, LAMBDA x : x = k)
Defines(d, k) == IsMap(d) /\ KeyAt(d, k) # 0
Step(d, s) == IF "k" \in DOMAIN s THEN d.vs[KeyAt(d, s.k)] ELSE d.vs[s.i]
RECURSIVE At(_, _)
At(d, p) == IF p = <<>> THEN d ELSE At(Step(d, Head(p)), Tail(p))
(* the place of the innermost section that encloses p and defines k; {} if there is none *)
Scopes(d, p, k) == {n \in 0..Len(p) : Defines(At(d, Take(p, n)), k)}
Visible(d, p, k) == Scopes(d, p, k) # {}
Lookup(d, p, k) == LET S == Scopes(d, p, k) n == CHOOSE n \in S : \A m \in S : m <= n
                       sec == At(d, Take(p, n)) IN sec.vs[KeyAt(sec, k)]
(* changes *)
Without(s, k) == [q \in 1..Len(s) - 1 |-> s[IF q < k THEN q ELSE q + 1]]
SetIn(m, k, v) == IF KeyAt(m, k) # 0 THEN [m EXCEPT !.vs[KeyAt(m, k)] = v]
                  ELSE [m EXCEPT !.ks = Append(m.ks, k), !.vs = Append(m.vs, v)]
DelIn(m, k) == [m EXCEPT !.ks = Without(m.ks, KeyAt(m, k)), !.vs = Without(m.vs, KeyAt(m, k))]
RECURSIVE Replace(_, _, _)
Replace(d, p, v) == IF p = <<>> THEN v
                    ELSE LET s == Head(p) q == IF "k" \in DOMAIN s THEN KeyAt(d, s.k) ELSE s.i IN
                         [d EXCEPT !.vs[q] = Replace(d.vs[q], Tail(p), v)]
SetAt(d, p, k, v) == Replace(d, p, SetIn(At(d, p), k, v))
DelAt(d, p, k) == Replace(d, p, DelIn(At(d, p), k))
Empty == [t |-> "map", ks |-> <<>>, vs |-> <<>>]
RECURSIVE SetAll(_, _, _)
SetAll(m, ks, vs) == IF ks = <<>> THEN m ELSE SetAll(SetIn(m, Head(ks), Head(vs)), Tail(ks), Tail(vs))

(* --- observed values -------------------------------------------------------- *)
(* an observed leaf is a Val; a date of the near future counts as time of day *)
SameVal(e, o) == /\ e.unit = o.unit
                 /\ IF e.k = "clock" THEN o.k = "when" /\ o.soon /\ o.clock = e.v ELSE e.k = o.k /\ e.v = o.v
RECURSIVE SameNode(_, _)
SameNode(d, o) ==
    CASE d.t = "leaf" -> o.t = "val" /\ SameVal(Scalar(d), o)
      [] d.t = "seq" -> o.t = "seq" /\ Len(o.vs) = Len(d.vs) /\ \A q \in 1..Len(d.vs) : SameNode(d.vs[q], o.vs[q])
      [] d.t = "map" -> o.t = "map" /\ Len(o.ks) = Len(d.ks) /\ \A q \in 1..Len(d.ks) : KeyAt(o, d.ks[q]) # 0 /\ SameNode(d.vs[q], o.vs[KeyAt(o, d.ks[q])])
(* where an observed document differs *)
RECURSIVE Differs(_, _, _)
Differs(d, o, at) ==
    IF SameNode(d, o) THEN {}
    ELSE IF d.t = "map" /\ o.t = "map" /\ Range(d.ks) = Range(o.ks)
         THEN UNION {Differs(d.vs[q], o.vs[KeyAt(o, d.ks[q])], at \o "/" \o d.ks[q]) : q \in 1..Len(d.ks)}
    ELSE IF d.t = "seq" /\ o.t = "seq" /\ Len(d.vs) = Len(o.vs)
         THEN UNION {Differs(d.vs[q], o.vs[q], at \o "/" \o ToString(q)) : q \in 1..Len(d.vs)}
    ELSE {at \o IF d.t = "leaf" THEN " (" \o Joined(d.text) \o ")" ELSE " (" \o d.t \o ")"}
=============================================================================
