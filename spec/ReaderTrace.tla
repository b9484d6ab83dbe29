---------------------------- MODULE ReaderTrace -----------------------------
(* Recorded histories of writing, reading and caching files.                 *)
EXTENDS Reader, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, fs, cache
vars == <<i, bad, fs, cache>>
Ok(v) == v.err = ""
PartsWhy(e, o) ==
    IF [k \in 1..Len(o) |-> o[k].file] # [k \in 1..Len(e) |-> e[k].file]
    THEN (IF Range([k \in 1..Len(o) |-> o[k].file]) = Range([k \in 1..Len(e) |-> e[k].file]) /\ Len(o) = Len(e)
          THEN {"files are in another order"} ELSE {"not the files that were asked for"})
    ELSE UNION {(IF e[k].xs # o[k].xs THEN {"sweep of a file"} ELSE {}) \cup (IF e[k].ys # o[k].ys THEN {"values of a file"} ELSE {}) : k \in 1..Len(e)}
ReadWhy(v) ==
    LET e == ReadParts(fs, v.o.pats) fm == FormatsOf(fs, v.o.pats) IN
    IF e = <<>> THEN (IF v.err = "OSError" THEN {} ELSE {"no file matches, but that is not an error"})
    ELSE IF Cardinality(fm) > 1 \/ (fm = {"hdf5"} /\ ~v.o.plain) THEN {}
    ELSE IF ~Ok(v) THEN {"reading failed: " \o v.err}
    ELSE PartsWhy(e, v.out.parts)
(* what a fresh read of the file gives; <<>> if it is not there *)
FreshParts(v) == ReadParts(fs, <<v.o.name>>)
UseWhy(v) ==
    LET k == KeyOf(v.o.name, v.o.cname) fr == Fresh(cache, k, v.o.reread) ps == FreshParts(v) IN
    IF fr /\ ps = <<>> THEN (IF v.err = "OSError" /\ ~v.out.got THEN {} ELSE {"a file that is not there was read"})
    ELSE (IF ~v.out.got THEN {"no data: " \o v.err} ELSE
          (IF v.out.fresh # fr THEN {"said to be fresh, or not, when it is the other way"} ELSE {})
          \cup PartsWhy(IF fr THEN ps ELSE Stored(cache, k), v.out.parts))
         \cup (IF v.o.body.kind = "fail" THEN (IF v.err # v.o.body.error THEN {"the error of the body is lost"} ELSE {})
               ELSE IF v.o.body.kind = "broken" /\ fr THEN (IF Ok(v) THEN {"data that can not be stored was stored"} ELSE {})
               ELSE IF v.out.got /\ ~Ok(v) THEN {"failed: " \o v.err} ELSE {})
FromWhy(v) ==
    IF ~HasKey(cache, v.o.cname) THEN (IF Ok(v) THEN {"something was read that was never stored"} ELSE {})
    ELSE IF ~Ok(v) THEN {"reading the cache failed: " \o v.err}
    ELSE PartsWhy(Stored(cache, v.o.cname), v.out.parts)
Explain(v) ==
    CASE v.o.op \in {"put", "del"} -> {}
      [] v.o.op = "read" -> ReadWhy(v)
      [] v.o.op = "use" -> UseWhy(v)
      [] v.o.op = "from" -> FromWhy(v)
      [] v.o.op = "order" -> (IF Ok(v) /\ v.out.names = NatSortSeq(v.o.names) THEN {} ELSE {"natural order of names"})
Init == i = 1 /\ bad = 0 /\ fs = <<>> /\ cache = <<>>
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad /\ fs' = <<>> /\ cache' = <<>>
           ELSE LET why == Explain(v) IN
                /\ fs' = (CASE v.o.op = "put" -> Put(fs, v.o.f) [] v.o.op = "del" -> Del(fs, v.o.name) [] OTHER -> fs)
                /\ cache' = (IF v.o.op = "use" /\ ~(Fresh(cache, KeyOf(v.o.name, v.o.cname), v.o.reread) /\ FreshParts(v) = <<>>)
                             THEN CacheAfter(cache, KeyOf(v.o.name, v.o.cname), v.o.reread, FreshParts(v), v.o.body) ELSE cache)
                /\ IF why = {} THEN bad' = bad
                   ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
