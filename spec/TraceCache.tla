------------------------------ MODULE TraceCache ------------------------------
(* Validates a log of drivers/mem.cc on the operation cache. *)
EXTENDS CacheSem, Json, IOUtils
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, cap, defs, hm
vars == <<l, c, cap, defs, hm>>
Chk(n, cond) == IF n \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, n>>) /\ FALSE
Init == l = 1 /\ c = NewCache /\ cap = 0 /\ defs = (0 :> NoDef) /\ hm = 0

Hash(v) == CASE hm = 0 -> v [] hm = 1 -> 0 [] hm = 2 -> v % 2 [] OTHER -> v * 4
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
StatsOK(e, s) ==
  /\ Chk("size", e.size = Len(s.e) /\ e.size2 = Len(s.e) /\ e.size <= cap')
  /\ Chk("stats", e.hits = s.h /\ e.misses = s.m /\ e.filtered = s.f /\ e.discarded = s.d)
  /\ Chk("buckets", /\ e.col + e.alone + e.empty = e.buckets
                    /\ e.alone + 2 * e.col <= e.size
                    /\ e.size > 0 => e.alone + e.col > 0)
Event(e) ==
  CASE e.e = "start" -> UNCHANGED <<c, cap, defs, hm>>
    [] e.e = "cnew" -> /\ c' = NewCache /\ cap' = e.cap /\ defs' = (0 :> NoDef) /\ hm' = e.hm
                       /\ Chk("size", e.cap >= 1 /\ e.cap <= Max({2 * e.n, 1}))
                       /\ StatsOK(e, NewCache)
    [] e.e = "cdef" -> defs' = (e.k :> [th |-> e.th, fi |-> e.fi, subs |-> e.subs]) @@ defs /\ UNCHANGED <<c, cap, hm>>
    [] e.e = "clook" ->
         LET o == TLCEval(Look(defs, cap, c, e.k, e.b)) IN
         /\ c' = o.c /\ UNCHANGED <<cap, defs, hm>>
         /\ Chk("result", IF o.ok THEN e.x = "" /\ e.r = o.r ELSE e.x = "op" /\ e.r = o.by)
         /\ Chk("eval", e.ev = o.ev)
         /\ StatsOK(e, o.c)
    [] e.e = "cclear" -> /\ c' = [c EXCEPT !.e = <<>>] /\ UNCHANGED <<cap, defs, hm>> /\ StatsOK(e, c')
    [] e.e = "cdel" -> UNCHANGED <<c, cap, defs, hm>>
    [] e.e = "end" -> UNCHANGED <<c, cap, defs, hm>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
==============================================================================
