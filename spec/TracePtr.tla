------------------------------ MODULE TracePtr ------------------------------
(* Validates a log of drivers/mem.cc on reference-counted handles.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, slot, kids
vars == <<l, slot, kids>>
Chk(c, cond) == IF c \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
None == [i \in {} |-> 0]
Init == l = 1 /\ slot = None /\ kids = None
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
RECURSIVE Close(_, _)
Close(ks, X) == LET Y == X \cup UNION {Range(ks[i]) : i \in X} IN IF Y = X THEN X ELSE Close(ks, Y)
Refs(sl, ks, A, i) == Cardinality({s \in DOMAIN sl : sl[s] = i})
                      + FoldSet(LAMBDA k, a : a + Len(SelectSeq(ks[k], LAMBDA x : x = i)), 0, A)
(* sl, ks: slots and objects after the event, dead objects included *)
After(e, sl, ks) ==
  LET A == TLCEval(Close(ks, Range(sl))) dead == DOMAIN ks \ A IN
  /\ slot' = TLCEval(sl) /\ kids' = TLCEval(Drop(ks, dead))
  /\ Chk("dead", Range(e.dead) = dead /\ Len(e.dead) = Cardinality(dead))
  /\ Chk("slots", {<<p[1], p[2]>> : p \in Range(e.slots)} = {<<s, sl[s]>> : s \in DOMAIN sl})
  /\ Chk("refs", {<<p[1], p[2]>> : p \in Range(e.refs)} = {<<i, Refs(sl, ks, A, i)>> : i \in A})
Event(e) ==
  CASE e.e = "pinit" -> slot' = None /\ kids' = None
    [] e.e = "pnew" -> After(e, (e.d :> e.id) @@ slot, (e.id :> [k \in 1..Len(e.kids) |-> slot[e.kids[k]]]) @@ kids)
    [] e.e = "pcopy" -> After(e, (e.d :> slot[e.a]) @@ slot, kids)
    [] e.e = "pmove" -> After(e, IF e.d = e.a THEN slot ELSE (e.d :> slot[e.a]) @@ Drop(slot, {e.a}), kids)
    [] e.e = "pswap" -> After(e, (e.d :> slot[e.a]) @@ (e.a :> slot[e.d]) @@ slot, kids)
    [] e.e = "pkid" -> After(e, (e.d :> kids[slot[e.a]][e.i + 1]) @@ slot, kids)
    [] e.e = "pdel" -> After(e, Drop(slot, {e.d}), kids)
    [] e.e = "pcmp" -> /\ Chk("cmp", LET q == slot[e.a] = slot[e.b] IN e.eq = q /\ (q => e.hq) /\ (e.lt \/ e.gt) = ~q /\ ~(e.lt /\ e.gt))
                       /\ UNCHANGED <<slot, kids>>
    [] e.e = "pend" -> After(e, None, kids)
    [] OTHER -> e.e \in {"start", "end"} /\ UNCHANGED <<slot, kids>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
