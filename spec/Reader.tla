------------------------------- MODULE Reader -------------------------------
(* Finding files, recognising their format, reading several of them as one,  *)
(* and the cache in front of that.                                           *)
(*                                                                           *)
(* A text is a sequence of character codes.  A file is                       *)
(*   [name, bin, lines, xs, ys]                                              *)
(* bin is "" for a text file, otherwise the binary format; lines are its     *)
(* lines; xs and ys are the sweep and the values its text denotes (opaque).  *)
(* Data in memory and in the cache is a sequence of parts [file, xs, ys],    *)
(* one for every file it comes from.                                         *)
EXTENDS HFBase, TLC
Digit == 48..57
Slash == 47
Star == 42
Quest == 63
BraO == 91
BraC == 93
Dash == 45
Dot == 46
Blank == {32, 9}

(* --- natural order of names ----------------------------------------------- *)
(* number of leading characters that are all digits, or all not digits *)
RECURSIVE Run(_, _)
Run(s, dig) == IF s # <<>> /\ ((Head(s) \in Digit) = dig) THEN 1 + Run(Tail(s), dig) ELSE 0
RECURSIVE Chunks(_)
Chunks(s) == IF s = <<>> THEN <<>>
             ELSE LET n == Run(s, Head(s) \in Digit) IN <<Take(s, n)>> \o Chunks(Drop(s, n))
RECURSIVE Unzero(_)
Unzero(s) == IF s # <<>> /\ Head(s) = 48 THEN Unzero(Tail(s)) ELSE s
(* -1, 0, 1: the order of two texts, character by character *)
RECURSIVE CmpText(_, _)
CmpText(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
                 ELSE IF b = <<>> THEN 1
                 ELSE IF Head(a) # Head(b) THEN (IF Head(a) < Head(b) THEN -1 ELSE 1)
                 ELSE CmpText(Tail(a), Tail(b))
(* the order of two numbers of any length *)
CmpNum(a, b) == LET x == Unzero(a) y == Unzero(b) IN
                IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1) ELSE CmpText(x, y)
IsNum(c) == Head(c) \in Digit
CmpChunk(a, b) == IF IsNum(a) /\ IsNum(b) THEN CmpNum(a, b)
                  ELSE IF IsNum(a) THEN -1
                  ELSE IF IsNum(b) THEN 1
                  ELSE CmpText(a, b)
RECURSIVE CmpChunks(_, _)
CmpChunks(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
                   ELSE IF b = <<>> THEN 1
                   ELSE LET c == CmpChunk(Head(a), Head(b)) IN
                        IF c # 0 THEN c ELSE CmpChunks(Tail(a), Tail(b))
NatLess(a, b) == LET c == CmpChunks(Chunks(a), Chunks(b)) IN
                 IF c # 0 THEN c < 0 ELSE CmpText(a, b) < 0
RECURSIVE NatSort(_)
NatSort(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : NatLess(x, y) IN <<m>> \o NatSort(S \ {m})
(* any sequence of names, equal ones stay next to each other *)
RECURSIVE NatSortSeq(_)
NatSortSeq(s) == IF s = <<>> THEN <<>>
                 ELSE LET k == CHOOSE k \in 1..Len(s) : \A h \in 1..Len(s) : s[h] = s[k] \/ NatLess(s[k], s[h])
                      IN <<s[k]>> \o NatSortSeq([q \in 1..Len(s) - 1 |-> s[IF q < k THEN q ELSE q + 1]])

(* --- patterns --------------------------------------------------------------*)
(* the class that starts after "[" at the head of p: its length up to "]", its characters *)
ClassLen(p) == IF \E k \in 1..Len(p) : p[k] = BraC THEN CHOOSE k \in 1..Len(p) : p[k] = BraC /\ \A h \in 1..k - 1 : p[h] # BraC ELSE 0
RECURSIVE ClassSet(_)
ClassSet(p) == IF p = <<>> THEN {}
               ELSE IF Len(p) >= 3 /\ p[2] = Dash THEN (p[1]..p[3]) \cup ClassSet(Drop(p, 3))
               ELSE {Head(p)} \cup ClassSet(Tail(p))
(* names that start with a dot are not found by patterns; directories are separate *)
RECURSIVE Match(_, _)
Match(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF Head(p) = Star THEN \E k \in 0..Len(s) : (\A h \in 1..k : s[h] # Slash) /\ Match(Tail(p), Drop(s, k))
    ELSE IF s = <<>> THEN FALSE
    ELSE IF Head(p) = Quest THEN Head(s) # Slash /\ Match(Tail(p), Tail(s))
    ELSE IF Head(p) = BraO /\ ClassLen(Tail(p)) > 1
         THEN LET n == ClassLen(Tail(p)) IN Head(s) \in ClassSet(Take(Tail(p), n - 1)) /\ Match(Drop(p, n + 1), Tail(s))
    ELSE Head(p) = Head(s) /\ Match(Tail(p), Tail(s))
(* the files of a list of patterns: pattern by pattern, each in natural order, none twice *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(Take(s, Len(s) - 1)) IN IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])
Found(names, pats) == Uniq(Flat([k \in 1..Len(pats) |-> NatSort({n \in names : Match(pats[k], n)})]))

(* --- formats -------------------------------------------------------------- *)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ Head(s) \in Blank THEN Strip(Tail(s)) ELSE s
Upper(s) == [k \in 1..Len(s) |-> IF s[k] \in 97..122 THEN s[k] - 32 ELSE s[k]]
StartsWith(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
CITIFILE == <<67, 73, 84, 73, 70, 73, 76, 69>>
VARw == <<86, 65, 82>>
BEGINw == <<66, 69, 71, 73, 78>>
HzWords == {<<72, 90>>} \cup {<<c, 72, 90>> : c \in {75, 77, 71, 84, 80}}
(* what a line gives away about the format *)
LineKind(l) ==
    LET s == Strip(l) IN
    IF StartsWith(l, CITIFILE) THEN "citi"
    ELSE IF (StartsWith(s, VARw) /\ \E k \in 4..Len(s) : s[k] = 40)
            \/ (StartsWith(s, BEGINw) /\ Len(s) > 6 /\ s[6] = 32 /\ Strip(Drop(s, 5)) # <<>>) THEN "mdif"
    ELSE IF s # <<>> /\ Head(s) = 35
            /\ \E w \in HzWords : LET u == Upper(Strip(Tail(s))) IN StartsWith(u, w) /\ Len(u) > Len(w) /\ u[Len(w) + 1] \in Blank THEN "touch"
    ELSE ""
FormatOf(f) == IF f.bin # "" THEN f.bin
               ELSE LET k == FirstIdx(f.lines, LAMBDA l : LineKind(l) # "") IN IF k = 0 THEN "sp" ELSE LineKind(f.lines[k])

(* --- reading -------------------------------------------------------------- *)
FileNamed(fs, n) == fs[FirstIdx(fs, LAMBDA f : f.name = n)]
NamesOf(fs) == {fs[k].name : k \in 1..Len(fs)}
PartOf(f) == [file |-> f.name, xs |-> f.xs, ys |-> f.ys]
ReadParts(fs, pats) == LET ns == Found(NamesOf(fs), pats) IN [k \in 1..Len(ns) |-> PartOf(FileNamed(fs, ns[k]))]
FormatsOf(fs, pats) == {FormatOf(FileNamed(fs, n)) : n \in Range(Found(NamesOf(fs), pats))}
Put(fs, f) == Append(SelectSeq(fs, LAMBDA g : g.name # f.name), f)
Del(fs, n) == SelectSeq(fs, LAMBDA g : g.name # n)

(* --- cache ---------------------------------------------------------------- *)
(* the name of a file without directory and extension *)
RECURSIVE AfterSlash(_)
AfterSlash(s) == LET k == FirstIdx(s, LAMBDA c : c = Slash) IN IF k = 0 THEN s ELSE AfterSlash(Drop(s, k))
LastDot(s) == IF \E k \in 1..Len(s) : s[k] = Dot THEN CHOOSE k \in 1..Len(s) : s[k] = Dot /\ \A h \in k + 1..Len(s) : s[h] # Dot ELSE Len(s) + 1
NameBase(n) == LET b == AfterSlash(n) IN Take(b, LastDot(b) - 1)
KeyOf(n, cname) == IF cname = <<>> THEN NameBase(n) ELSE cname
HasKey(cache, k) == \E q \in 1..Len(cache) : cache[q].key = k
Stored(cache, k) == cache[FirstIdx(cache, LAMBDA c : c.key = k)].parts
StoreIn(cache, k, ps) == Append(SelectSeq(cache, LAMBDA c : c.key # k), [key |-> k, parts |-> ps])
(* what the user's body does to the data: leaves it, replaces its values, fails, or
   leaves something that can not be stored *)
Left(ps, body) == IF body.kind = "edit" THEN [k \in 1..Len(ps) |-> [ps[k] EXCEPT !.ys = body.ys]] ELSE ps
Finishes(body) == body.kind \in {"keep", "edit"}
Fresh(cache, k, reread) == reread \/ ~HasKey(cache, k)
CacheAfter(cache, k, reread, ps, body) ==
    IF Fresh(cache, k, reread) /\ Finishes(body) THEN StoreIn(cache, k, Left(ps, body)) ELSE cache
=============================================================================
