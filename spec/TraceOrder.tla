----------------------------- MODULE TraceOrder -----------------------------
(* Validates a log of drivers/order.cc.                                        *)
EXTENDS OrderSem, Json, IOUtils
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, o, h, arts, memo
(* b: builders; o: orders [t |-> annotated part seen, r |-> annotated whole];  *)
(* h: hypergraphs; arts: artificial identifiers seen; memo: FORCE results      *)
vars == <<l, b, o, h, arts, memo>>
Chk(c, cond) == IF c \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
None == [i \in {} |-> 0]
Init == l = 1 /\ b = None /\ o = None /\ h = None /\ arts = {} /\ memo = None
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
SetB(e, f) == /\ b' = TLCEval(f) /\ UNCHANGED <<o, h>>
              /\ Chk("builder", {<<x[1], x[2]>> : x \in Range(e.all)} = {<<i, f[i]>> : i \in DOMAIN f} /\ "x" \notin DOMAIN e)
SetO(e, f) == /\ o' = TLCEval(f) /\ UNCHANGED <<b, h>>
              /\ Chk("order", {<<x[1], x[2]>> : x \in Range(e.allo)} = {<<i, f[i].t>> : i \in DOMAIN f})
Find(a, i) == LET ns == AllNodes(a) S == {k \in 1..Len(ns) : ns[k].id = i} IN IF S = {} THEN {} ELSE {ns[k] : k \in S}
Flat(q) == [i \in 1..Len(q) |-> <<q[i], <<>>>>]
Arts(q) == SelectSeq(Ids(q), LAMBDA i : i < 0)
FreshArts(q) == LET a == Arts(q) IN Cardinality(Range(a)) = Len(a) /\ Range(a) \cap arts = {}
Keep(e) == /\ b' = IF e.x = "" THEN TLCEval((e.d :> e.r) @@ b) ELSE b
           /\ arts' = arts \cup Range(Arts(e.r)) /\ UNCHANGED <<o, h, memo>>
Same == UNCHANGED <<b, o, h, arts, memo>>
Event(e) ==
  CASE e.e = "start" -> b' = None /\ o' = None /\ h' = None /\ memo' = None /\ UNCHANGED arts
    [] e.e = "bnew" -> SetB(e, (e.d :> <<>>) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "blist" -> SetB(e, (e.d :> Flat(e.l)) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bone" -> SetB(e, (e.d :> Flat(<<e.i>>)) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bnest" -> SetB(e, (e.d :> <<<<e.i, b[e.a]>>>>) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bpush" -> SetB(e, (e.d :> (<<<<e.i, <<>>>>>> \o b[e.d])) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bpushn" -> SetB(e, (e.d :> (<<<<e.i, b[e.a]>>>> \o b[e.d])) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bcat" -> SetB(e, LET q == b[e.a] \o b[e.n] IN (e.d :> q) @@ (e.a :> q) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bcopy" -> SetB(e, (e.d :> b[e.a]) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bdel" -> SetB(e, Drop(b, {e.d})) /\ UNCHANGED <<arts, memo>>
    [] e.e = "bobs" -> LET q == b[e.d] IN Chk("builder", e.empty = (q = <<>>) /\ e.size = Len(Ids(q)) /\ e.height = Len(q)) /\ Same
    [] e.e = "onew" ->
         LET D == TLCEval(Duplicates(b[e.a])) a == OrderOf(b[e.a]) IN
         /\ Chk("duplicate", IF D = {} THEN e.x = "" ELSE e.x = "dup" /\ e.dup \in D)
         /\ SetO(e, IF D # {} THEN o ELSE (e.d :> [t |-> a, r |-> a]) @@ o) /\ UNCHANGED <<arts, memo>>
    [] e.e = "onext" -> SetO(e, (e.d :> [t |-> Tail(o[e.a].t), r |-> o[e.a].r]) @@ o) /\ UNCHANGED <<arts, memo>>
    [] e.e = "onest" -> SetO(e, (e.d :> [t |-> o[e.a].t[1][4], r |-> o[e.a].r]) @@ o) /\ UNCHANGED <<arts, memo>>
    [] e.e = "ocopy" -> SetO(e, (e.d :> o[e.a]) @@ o) /\ UNCHANGED <<arts, memo>>
    [] e.e = "odel" -> SetO(e, Drop(o, {e.d})) /\ UNCHANGED <<arts, memo>>
    [] e.e = "oobs" -> LET a == o[e.d].t IN
         /\ Chk("order", e.empty = (a = <<>>))
         /\ Chk("flat", e.flat = FlatA(a) /\ e.flat2 = FlatA(a))
         /\ Chk("text", e.text => e.lines = Lines(a, 0)) /\ Same
    [] e.e = "onode" ->
         LET S == Find(o[e.d].r, e.i) IN
         /\ Chk("lookup", IF S = {} THEN e.x = "unknown" /\ e.id = e.i
                          ELSE LET n == CHOOSE n \in S : TRUE IN
                               e.x = "" /\ e.id = e.i /\ e.pos = n.pos /\ e.var = n.var /\ e.path = n.path /\ e.next = n.next /\ e.nested = n.nested)
         /\ Same
    [] e.e = "ocont" -> LET ns == AllNodes(o[e.d].r) IN
         /\ Chk("contains", {<<p[1], p[2]>> : p \in Range(e.in)} = {p \in Containment(ns) : p[1] < e.n /\ p[2] < e.n}) /\ Same
    [] e.e = "ocmp" -> Chk("equal", e.hash /\ {<<p[1], p[2]>> : p \in Range(e.eq)} = {p \in (DOMAIN o) \X (DOMAIN o) : o[p[1]].t = o[p[2]].t}) /\ Same
    [] e.e = "sflat" -> SetB(e, (e.d :> Flat(Leaves(b[e.a]))) @@ b) /\ UNCHANGED <<arts, memo>>
    [] e.e = "sgroup" ->
         /\ Chk("group", GroupedOK(b[e.a], e.n, e.r, arts))
         /\ arts' = arts \cup {i \in Range(Ids(e.r)) : i < 0}
         /\ SetB(e, (e.d :> e.r) @@ b) /\ UNCHANGED memo
    [] e.e = "hnew" ->
         LET dup == Cardinality(Range(e.l)) # Len(e.l) IN
         /\ Chk("force", e.x = IF dup THEN "twice" ELSE "")
         /\ h' = IF dup THEN Drop(h, {e.h}) ELSE (e.h :> [v |-> e.l, es |-> <<>>, ws |-> <<>>, fresh |-> TRUE]) @@ h
         /\ UNCHANGED <<b, o, arts, memo>>
    [] e.e = "hedge" ->
         /\ h' = IF e.l = <<>> THEN h ELSE [h EXCEPT ![e.h].es = Append(@, e.l), ![e.h].ws = Append(@, e.w)]
         /\ UNCHANGED <<b, o, arts, memo>>
    [] e.e = "sforce" ->
         LET g == h[e.h] r == [i \in 1..Len(e.r) |-> e.r[i][1]] key == <<g.v, g.es, g.ws, e.it>>
             up == IF e.rev THEN Reverse(r) ELSE r IN
         /\ Chk("force", /\ \A i \in 1..Len(e.r) : e.r[i][2] = <<>>
                         /\ Len(r) = Len(g.v) /\ Range(r) = Range(g.v)
                         /\ Len(e.spans) = e.it
                         /\ e.it > 0 => 1000 * TotalSpan(r, g.es) = Min(Range(e.spans)))
         /\ Chk("mirror", g.fresh /\ key \in DOMAIN memo => memo[key] = up)
         /\ memo' = IF g.fresh /\ key \notin DOMAIN memo THEN (key :> up) @@ memo ELSE memo
         /\ h' = [h EXCEPT ![e.h].fresh = (e.it = 0) /\ @]
         /\ b' = TLCEval((e.d :> e.r) @@ b) /\ Chk("builder", {<<x[1], x[2]>> : x \in Range(e.all)} = {<<i, b'[i]>> : i \in DOMAIN b'})
         /\ UNCHANGED <<o, arts>>
    (* orders as JSON (only the trees matter here: o holds builders' trees) *)
    [] e.e = "jorder" -> o' = TLCEval((e.d :> e.q) @@ o) /\ UNCHANGED <<b, h, arts, memo>>
    [] e.e = "jpart" -> o' = TLCEval((e.d :> IF e.k = 1 THEN o[e.a][1][2] ELSE Tail(o[e.a])) @@ o) /\ UNCHANGED <<b, h, arts, memo>>
    [] e.e = "jbuilt" -> o' = TLCEval((e.d :> b[e.a]) @@ o) /\ UNCHANGED <<b, h, arts, memo>>
    [] e.e = "jcycle" ->
         /\ Chk("dump", ~e.bad /\ e.j = Dumped(o[e.a]))
         /\ Chk("load", e.x = "" /\ Anonymous(e.r) = Loaded(Dumped(o[e.a])) /\ FreshArts(e.r))
         /\ Keep(e)
    [] e.e = "jload" ->
         LET t == ReadItems(e.w).t IN
         /\ Chk("load", IF -3 \in Range(e.w) THEN e.x = "refused"
                        ELSE e.x = "" /\ Anonymous(e.r) = Loaded(t) /\ FreshArts(e.r))
         /\ Keep(e)
    [] e.e = "jnone" -> Chk("load", e.x = "none") /\ Keep(e)
    [] OTHER -> e.e = "end" /\ Same
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
