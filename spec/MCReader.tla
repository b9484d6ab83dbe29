----------------------------- MODULE MCReader ------------------------------
(* Bounded model: files come and go, are read through patterns and through   *)
(* the cache by bodies that finish or fail.                                  *)
EXTENDS Reader, Json
CONSTANTS MaxOps, HistOn
VARIABLES fs, cache, done, last, ops
vars == <<fs, cache, done, last, ops>>
Names == <<<<97, 50, 46, 116>>, <<97, 49, 48, 46, 116>>, <<49, 46, 116>>, <<97, 48, 50>>>>      \* a2.t a10.t 1.t a02
Pats == <<<<<<97, 42>>>>, <<<<42, 46, 116>>>>, <<<<49, 46, 116>>, <<42>>>>, <<<<97, 63, 46, 116>>>>>>   \* a*  *.t  1.t,*  a?.t
Body(k, y) == [kind |-> k, ys |-> <<y, y>>]
Bodies == {Body("keep", 0), Body("edit", 7), Body("fail", 0), Body("broken", 0)}
CNames == {<<>>, <<99>>}
File(n, v) == [name |-> Names[n], bin |-> "", lines |-> <<>>, xs |-> <<1, 2>>, ys |-> <<v, v + 1>>]
None == [fresh |-> FALSE, parts |-> <<>>, key |-> <<>>, hit |-> FALSE]
Init == fs = <<>> /\ cache = <<>> /\ done = <<>> /\ last = None /\ ops = <<>>
Note(o) == ops' = Append(ops, o)
Op(op) == [op |-> op, n |-> 1, v |-> 0, body |-> Body("keep", 0), cname |-> <<>>, reread |-> FALSE]
DoPut == \E n \in 1..Len(Names), v \in {10, 20} : fs' = Put(fs, File(n, v)) /\ Note([Op("put") EXCEPT !.n = n, !.v = v]) /\ last' = None /\ UNCHANGED <<cache, done>>
DoDel == \E n \in 1..Len(Names) : Names[n] \in NamesOf(fs) /\ fs' = Del(fs, Names[n]) /\ Note([Op("del") EXCEPT !.n = n]) /\ last' = None /\ UNCHANGED <<cache, done>>
DoRead == \E p \in 1..Len(Pats) : Note([Op("read") EXCEPT !.n = p]) /\ last' = [None EXCEPT !.parts = ReadParts(fs, Pats[p])] /\ UNCHANGED <<fs, cache, done>>
DoUse == \E n \in 1..Len(Names), b \in Bodies, c \in CNames, r \in BOOLEAN :
    LET k == KeyOf(Names[n], c) fr == Fresh(cache, k, r) ps == ReadParts(fs, <<Names[n]>>) IN
    /\ UNCHANGED fs
    /\ Note([Op("use") EXCEPT !.n = n, !.body = b, !.cname = c, !.reread = r])
    /\ IF fr /\ ps = <<>> THEN UNCHANGED <<cache, done>> /\ last' = None
       ELSE /\ cache' = CacheAfter(cache, k, r, ps, b)
            /\ last' = [fresh |-> fr, parts |-> IF fr THEN ps ELSE Stored(cache, k), key |-> k, hit |-> HasKey(cache, k)]
            /\ done' = IF fr /\ Finishes(b) THEN Append(done, [key |-> k, parts |-> Left(ps, b)]) ELSE done
Next == Len(ops) < MaxOps /\ (DoPut \/ DoDel \/ DoRead \/ DoUse)
Spec == Init /\ [][Next]_vars
(* a copy is what the last finished body for that name left *)
InvStored == \A q \in 1..Len(cache) : LET h == {d \in 1..Len(done) : done[d].key = cache[q].key} IN
                h # {} /\ cache[q].parts = done[CHOOSE d \in h : \A e \in h : e <= d].parts
InvKept == \A d \in 1..Len(done) : HasKey(cache, done[d].key)
InvOne == \A p, q \in 1..Len(cache) : cache[p].key = cache[q].key => p = q
InvFresh == (last.parts # <<>> /\ ~last.fresh /\ last.key # <<>>) => last.hit
(* the order of names is a strict total order, patterns pick each file once *)
Sample == Range(Names) \cup {<<97>>, <<97, 50>>, <<97, 48, 48, 50>>, <<50>>, <<49, 48>>, <<97, 50, 97>>, <<47, 97, 50>>}
ASSUME \A a, b, c \in Sample : /\ (a = b) \/ (NatLess(a, b) # NatLess(b, a))
                               /\ ~NatLess(a, a)
                               /\ (NatLess(a, b) /\ NatLess(b, c)) => NatLess(a, c)
InvFound == \A p \in 1..Len(Pats) : LET f == Found(NamesOf(fs), Pats[p]) IN
    /\ \A q, r \in 1..Len(f) : f[q] = f[r] => q = r
    /\ Range(f) = {n \in NamesOf(fs) : \E k \in 1..Len(Pats[p]) : Match(Pats[p][k], n)}
Emit == (HistOn /\ Len(ops) > 3) => PrintT("BEHAVIOUR " \o ToJson([ops |-> ops, names |-> Names, pats |-> Pats]))
View == <<fs, cache, last, Len(ops)>>
=============================================================================
