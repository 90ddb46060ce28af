----------------------------- MODULE TraceTable -----------------------------
(* Validates a log of drivers/mem.cc on hash tables and unique tables.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  t,   \* hash table: element id -> value
  m,   \* last observed bucket count, rehash count, hash mode
  u,   \* unique table: element id -> value
  p,   \* blocks handed out and not yet unified: id -> extra bytes
  st   \* unique table statistics
vars == <<l, t, m, u, p, st>>
Chk(c, cond) == IF c \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
None == [i \in {} |-> 0]
Zero == [peak |-> 0, access |-> 0, hits |-> 0, misses |-> 0]
Init == l = 1 /\ t = None /\ m = [b |-> 0, r |-> 0, hm |-> 0] /\ u = None /\ p = None /\ st = Zero
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
With(f, v) == {i \in DOMAIN f : f[i] = v}
Abs(x) == IF x < 0 THEN -x ELSE x
Buckets(e, n, hm) ==
  /\ e.col + e.alone + e.empty = e.buckets /\ e.alone + 2 * e.col <= n /\ e.alone + e.col >= (IF n > 0 THEN 1 ELSE 0)
  /\ (hm = 1 => e.col + e.alone <= 1) /\ (hm = 2 => e.col + e.alone <= 2)
  /\ e.buckets >= 1 /\ Abs(e.load * e.buckets - 1000 * n) <= e.buckets
Table(e) ==
  LET n == Cardinality(DOMAIN t') IN
  /\ m' = [m EXCEPT !.b = e.buckets, !.r = e.rehash]
  /\ Chk("size", e.size = n)
  /\ Chk("stats", Buckets(e, n, m.hm))
Event(e) ==
  CASE e.e = "hnew" -> t' = None /\ m' = [b |-> e.buckets, r |-> e.rehash, hm |-> e.hm] /\ Chk("size", e.size = 0) /\ UNCHANGED <<u, p, st>>
    [] e.e = "hins" ->
         LET w == With(t, e.v) IN
         /\ t' = IF w = {} THEN TLCEval((e.id :> e.v) @@ t) ELSE t
         /\ Chk("rep", IF w = {} THEN e.new /\ e.r = e.id ELSE ~e.new /\ e.r \in w)
         /\ Table(e) /\ UNCHANGED <<u, p, st>>
    [] e.e = "hcheck" ->
         LET w == With(t, e.v) IN
         /\ t' = t /\ Chk("rep", IF w = {} THEN e.absent ELSE ~e.absent /\ e.r \in w) /\ Table(e) /\ UNCHANGED <<u, p, st>>
    [] e.e = "hcommit" -> t' = TLCEval((e.id :> e.v) @@ t) /\ Table(e) /\ UNCHANGED <<u, p, st>>
    [] e.e = "herase" -> t' = TLCEval(Drop(t, {e.id})) /\ Table(e) /\ UNCHANGED <<u, p, st>>
    [] e.e = "hclear" -> /\ t' = None /\ Chk("rep", Range(e.gone) = DOMAIN t /\ Len(e.gone) = Cardinality(DOMAIN t)) /\ Table(e)
                         /\ UNCHANGED <<u, p, st>>
    [] e.e = "unew" -> u' = None /\ p' = None /\ st' = Zero /\ m' = [b |-> 0, r |-> 0, hm |-> e.hm] /\ UNCHANGED t
    [] e.e = "ualloc" -> p' = TLCEval((e.id :> e.ex) @@ p) /\ UNCHANGED <<t, m, u, st>>
    [] e.e = "uput" ->
         LET w == With(u, e.v) IN
         /\ p' = TLCEval(Drop(p, {e.id}))
         /\ u' = IF w = {} THEN TLCEval((e.id :> e.v) @@ u) ELSE u
         /\ st' = IF w = {} THEN [st EXCEPT !.access = @ + 1, !.misses = @ + 1, !.peak = Max({@, Cardinality(DOMAIN u) + 1})]
                  ELSE [st EXCEPT !.access = @ + 1, !.hits = @ + 1]
         /\ Chk("rep", IF w = {} THEN e.r = e.id ELSE e.r \in w)
         /\ Chk("dead", e.dead = IF w = {} THEN 0 ELSE 1)
         /\ UNCHANGED <<t, m>>
    [] e.e = "uerase" -> u' = TLCEval(Drop(u, {e.id})) /\ Chk("dead", e.dead = 1) /\ UNCHANGED <<t, m, p, st>>
    [] e.e = "ustat" ->
         LET n == Cardinality(DOMAIN u) IN
         /\ Chk("size", e.size = n)
         /\ Chk("stats", e.peak = st.peak /\ e.access = st.access /\ e.hits = st.hits /\ e.misses = st.misses /\ Buckets(e, n, m.hm))
         /\ Chk("rep", e.bad = <<>>)
         /\ Chk("recycled", LET b == n + Cardinality(DOMAIN p) IN e.live >= b /\ e.live <= b + 1)
         /\ UNCHANGED <<t, m, u, p, st>>
    [] e.e = "udel" -> Chk("dead", e.dead = Cardinality(DOMAIN u)) /\ Chk("recycled", e.live = 0) /\ u' = None /\ p' = None /\ UNCHANGED <<t, m, st>>
    [] OTHER -> e.e \in {"start", "end"} /\ UNCHANGED <<t, m, u, p, st>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
