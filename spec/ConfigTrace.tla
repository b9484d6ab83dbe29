---------------------------- MODULE ConfigTrace -----------------------------
(* Recorded uses of hftools.file_formats.config.                             *)
EXTENDS Config, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, doc, file
vars == <<i, bad, doc, file>>
Ok(v) == v.err = ""
TreeWhy(d, v, what) == IF ~Ok(v) THEN {what \o " failed: " \o v.err} ELSE {what \o " differs at " \o w : w \in Differs(d, v.out.tree, "")}
GetWhy(v, vis, node) ==
    CASE v.o.how = "item" -> IF vis THEN TreeWhy(node, v, "lookup") ELSE (IF v.err = "KeyError" THEN {} ELSE {"a key nobody defines is found"})
      [] v.o.how = "in" -> IF Ok(v) /\ v.out.yes = vis THEN {} ELSE {"membership does not agree with lookup"}
      [] v.o.how = "get" -> IF vis THEN TreeWhy(node, v, "lookup with default") ELSE (IF Ok(v) /\ v.out.yes THEN {} ELSE {"default is not returned"})
Explain(v) ==
    CASE v.o.op = "load" -> TreeWhy(v.o.doc, v, "loading")
      [] v.o.op = "look" -> GetWhy(v, Visible(doc, v.o.p, v.o.key), IF Visible(doc, v.o.p, v.o.key) THEN Lookup(doc, v.o.p, v.o.key) ELSE Empty)
      [] v.o.op = "merged" -> (LET h == IF Visible(doc, v.o.p2, v.o.key) THEN v.o.p2 ELSE v.o.p
                                   vis == Visible(doc, h, v.o.key) IN
                               GetWhy(v, vis, IF vis THEN Lookup(doc, h, v.o.key) ELSE Empty))
      [] v.o.op \in {"set", "del", "update"} -> (IF Ok(v) THEN {} ELSE {"change is refused: " \o v.err})
      [] v.o.op = "tree" -> TreeWhy(doc, v, "configuration")
      [] v.o.op = "rt" -> TreeWhy(doc, v, "configuration written and loaded")
      [] v.o.op = "reload" -> TreeWhy(file, v, "reloading")
Init == i = 1 /\ bad = 0 /\ doc = Empty /\ file = Empty
Next == /\ i <= Len(Log)
        /\ i' = i + 1
        /\ LET v == Log[i] IN
           IF v.ev = "reset" THEN bad' = bad /\ doc' = Empty /\ file' = Empty
           ELSE LET why == Explain(v) IN
                /\ doc' = (CASE v.o.op = "load" -> v.o.doc
                             [] v.o.op = "set" -> SetAt(doc, v.o.p, v.o.key, v.o.node)
                             [] v.o.op = "del" -> DelAt(doc, v.o.p, v.o.key)
                             [] v.o.op = "update" -> Replace(doc, v.o.p, SetAll(At(doc, v.o.p), v.o.node.ks, v.o.node.vs))
                             [] v.o.op = "reload" -> file
                             [] OTHER -> doc)
                /\ file' = (CASE v.o.op = "load" -> v.o.doc [] v.o.op = "rt" /\ v.o.same -> doc [] OTHER -> file)
                /\ IF why = {} THEN bad' = bad
                   ELSE PrintT("VIOL " \o ToJson([line |-> i, why |-> why])) /\ bad' = bad + 1
Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
