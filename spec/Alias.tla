------------------------------- MODULE Alias --------------------------------
(* Sharing of data between arrays.  heap maps names to arrays whose vals are  *)
(* numbers of cells of store; store holds the (integer) values.  Views share  *)
(* cells with their source, copies and computed results own fresh cells, a    *)
(* write changes cells and is seen through every array holding them.  Units,  *)
(* formats and labels belong to one array each.                               *)
EXTENDS ArraySpec
VARIABLE store

Values(a, st) == [a EXCEPT !.vals = [k \in 1..Len(@) |-> st[@[k]]]]
ValueHeap(h, st) == [r \in DOMAIN h |-> Values(h[r], st)]
Bind(h, r, a) == [q \in DOMAIN h \cup {r} |-> IF q = r THEN a ELSE h[q]]
World(h, st) == [h |-> h, st |-> st]
(* array a of values gets cells of its own and the name r *)
Fresh(w, r, a) == World(Bind(w.h, r, [a EXCEPT !.vals = IotaFrom(Len(w.st) + 1, Len(a.vals))]), w.st \o a.vals)
RECURSIVE FreshAll(_, _, _)
FreshAll(w, rs, src) == IF rs = {} THEN w ELSE LET r == CHOOSE q \in rs : TRUE IN FreshAll(Fresh(w, r, src[r]), rs \ {r}, src)

Mutations == {"write", "iadd", "setunit", "setfmt", "relabel"}
OnlyBasic(items) == \A k \in 1..Len(items) : items[k].t \in {"int", "slice", "ell"}
(* what the documentation promises about sharing *)
Sharing(o, r) ==
    CASE Len(r.vals) = 0 \/ r.shape = <<>> -> "either"
      [] o.op \in {"view", "transpose"} -> "shares"
      [] o.op = "index" /\ OnlyBasic(o.items) -> "shares"
      [] o.op \in {"copy", "bin", "scal", "cum", "ctor"} -> "fresh"
      [] o.op = "un" /\ o.f = "neg" -> "fresh"
      [] OTHER -> "either"
CanShare == {"view", "transpose", "index", "reorder", "t", "squeeze", "take", "mask", "align", "norep", "tail", "red", "un", "ctor", "copy", "replace"}

WriteCells(st, cells, vs) == \* vs: one value, or one per cell
    [c \in 1..Len(st) |-> IF c \notin Range(cells) THEN st[c]
                          ELSE IF Len(vs) = 1 THEN vs[1] ELSE vs[FirstIdx(cells, LAMBDA q : q = c)]]
Mutate(w, o) ==
    LET x == w.h[o.x] IN
    CASE o.op = "write" -> LET t == Index(x, o.items) IN
                           IF t.st = "err" THEN Err
                           ELSE Ok(World(w.h, WriteCells(w.st, t.val.vals, o.vs)))
      [] o.op = "iadd" -> Ok(World(w.h, [c \in 1..Len(w.st) |-> IF c \in Range(x.vals) THEN w.st[c] + o.v ELSE w.st[c]]))
      [] o.op = "setunit" -> Ok(World([w.h EXCEPT ![o.x].unit = o.u], w.st))
      [] o.op = "setfmt" -> Ok(World([w.h EXCEPT ![o.x].fmt = o.u], w.st))
      [] o.op = "relabel" -> IF NameIdx(x.dims, o.old) = 0 THEN Err
                             ELSE Ok(World([w.h EXCEPT ![o.x].dims = ReplaceByName(@, o.old, o.d)], w.st))
MeaningV(h, o) == IF o.op = "ctor" THEN Ok(h[o.x]) ELSE Meaning(h, o)
(* outcome of o when its result does (not) share cells with its source *)
Outcome(w, o, shared) ==
    IF o.op \in Mutations THEN Mutate(w, o)
    ELSE LET m == MeaningV(ValueHeap(w.h, w.st), o) IN
         IF m.st = "err" THEN Err
         ELSE IF shared /\ o.op \in CanShare /\ o.op # "red"
              THEN Ok(World(Bind(w.h, o.dst, IF o.op = "mask" THEN MaskIndex(w.h[o.x], Values(w.h[o.m], w.st), o.anon).val
                                             ELSE MeaningV(w.h, o).val), w.st))
         ELSE IF shared /\ o.op = "red" THEN Ok(World(Bind(w.h, o.dst, w.h[o.x]), w.st))
         ELSE Ok(Fresh(w, o.dst, m.val))
(* sharing outcomes the promise allows *)
Allowed(w, o) ==
    IF o.op \in Mutations THEN {FALSE}
    ELSE LET m == MeaningV(ValueHeap(w.h, w.st), o) IN
         IF m.st = "err" THEN {FALSE}
         ELSE CASE Sharing(o, m.val) = "shares" -> {TRUE} [] Sharing(o, m.val) = "fresh" -> {FALSE} [] OTHER -> BOOLEAN
=============================================================================
