---------------------------- MODULE TraceManager ----------------------------
(* Validates a log of drivers/manager.cc.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils, ManagerSem
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, own, held,
          last,    \* what was observed last: statistics and allocated blocks of each configuration
          base     \* configuration -> statistics after its very first initialisation
vars == <<l, own, held, last, base>>
Chk(c, cond) == IF c \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
NK == 6
All == 1..NK
Nothing == [mgr |-> [k \in All |-> <<>>], live |-> [k \in All |-> 0]]
Init == l = 1 /\ own = [k \in All |-> {}] /\ held = [k \in All |-> NoneHeld] /\ last = Nothing /\ base = [k \in {} |-> 0]
Free(k) == \A j \in All : Conflict(j, k) => own[j] = {}
Stats(e, k) == {p[2] : p \in Range(e.mgr[k])}
Unused == {<<0, 0, 0, 0, 0>>}
(* the state after the event, and what must be seen of it *)
After(e, o, h) ==
  /\ own' = o /\ held' = TLCEval(h) /\ last' = [mgr |-> e.mgr, live |-> e.live]
  /\ Chk("managers", \A k \in All : {p[1] : p \in Range(e.mgr[k])} = o[k])
  /\ Chk("diagrams", \A k \in All : {<<p[1], Range(p[2])>> : p \in Range(e.look[k])} = {<<s, h[k][s]>> : s \in DOMAIN h[k]}
                                    /\ \A p \in Range(e.look[k]) : Len(p[2]) = Cardinality(Range(p[2])))
  /\ Chk("same", \A k \in All : Cardinality(Stats(e, k)) <= 1)                                   \* all copies are the same manager
  /\ Chk("frame", \A k \in All \ {e.k} : e.mgr[k] = last.mgr[k] /\ e.live[k] = last.live[k])     \* others are not affected
  /\ Chk("released", \A k \in All : o[k] = {} => e.live[k] = 0)
Still(e) == Chk("unchanged", Stats(e, e.k) = {p[2] : p \in Range(last.mgr[e.k])} /\ e.live[e.k] = last.live[e.k])
Fresh(e) == LET st == CHOOSE s \in Stats(e, e.k) : TRUE IN
            /\ Chk("empty", \A i \in 4..7 : st[i] = <<0, 0, 0, 0, 0>>)
            /\ IF e.k \in DOMAIN base THEN Chk("empty", st = base[e.k]) /\ UNCHANGED base ELSE base' = (e.k :> st) @@ base
Event(e) ==
  CASE e.e = "start" -> own' = [k \in All |-> {}] /\ held' = [k \in All |-> NoneHeld] /\ last' = Nothing /\ UNCHANGED base
    [] e.e = "init" ->
         /\ Chk("init", IF ~Free(e.k) THEN e.res = "refused" \/ (e.hit /\ e.res = "alloc")
                        ELSE IF e.hit THEN e.res \in {"ok", "alloc"} ELSE e.res = "ok")
         /\ IF e.res = "ok" THEN After(e, [own EXCEPT ![e.k] = @ \cup {e.d}], held) /\ Fresh(e)
            ELSE After(e, own, held) /\ Still(e) /\ UNCHANGED base
    [] e.e \in {"copy", "assign"} -> After(e, [own EXCEPT ![e.k] = @ \cup {e.d}], held) /\ Still(e) /\ UNCHANGED base
    [] e.e \in {"move", "massign"} -> After(e, [own EXCEPT ![e.k] = IF e.d = e.a THEN @ ELSE (@ \ {e.a}) \cup {e.d}], held) /\ Still(e) /\ UNCHANGED base
    [] e.e = "drop" -> /\ After(e, [own EXCEPT ![e.k] = @ \ {e.d}], held) /\ UNCHANGED base
                       /\ IF own'[e.k] # {} THEN Still(e) ELSE TRUE
    [] e.e = "mk" -> After(e, own, [held EXCEPT ![e.k] = (e.s :> Made(e.a, e.b)) @@ @]) /\ UNCHANGED base
    [] e.e = "op" -> After(e, own, [held EXCEPT ![e.k] = (e.s :> Combine(@[e.s], @[e.t], e.o)) @@ @]) /\ UNCHANGED base
    [] e.e = "close" -> After(e, own, [held EXCEPT ![e.k] = (e.s :> Closure(@[e.s])) @@ @]) /\ UNCHANGED base
    [] e.e = "forget" -> After(e, own, [held EXCEPT ![e.k] = Without(@, e.s)]) /\ UNCHANGED base
    [] e.e = "reset" -> After(e, own, held) /\ UNCHANGED base /\ Chk("reset", \A st \in Stats(e, e.k) : st[7][1] = 0)
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
