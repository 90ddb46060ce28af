------------------------------ MODULE GenCache ------------------------------
(* Replays for the real cache: one script per transition of the state graph    *)
(* of the specification (state: the entries, oldest first), reached by a       *)
(* shortest path.  The commands are drivers/mem.cc's.                          *)
EXTENDS CacheSem
CONSTANTS Cap, Shape
Ops == 0..4
D(th, fi, subs) == [th |-> th, fi |-> fi, subs |-> subs]
Defs == CASE Shape = 1 -> [k \in Ops |-> D(0, 0, <<>>)]
          [] Shape = 2 -> (0 :> D(0,0,<<>>) @@ 1 :> D(0,0,<<0>>) @@ 2 :> D(1,0,<<0,1>>) @@ 3 :> D(0,0,<<2,0>>) @@ 4 :> D(2,0,<<1,3>>))
          [] Shape = 3 -> (0 :> D(0,0,<<>>) @@ 1 :> D(0,1,<<0>>) @@ 2 :> D(0,0,<<1,0,1>>) @@ 3 :> D(1,1,<<2,1>>) @@ 4 :> D(0,0,<<3,0,2>>))
VARIABLES c, hist
S(x) == ToString(x)
DefCmd(k) == FoldLeft(LAMBDA a, x : a \o " " \o S(x),
               "cdef " \o S(k) \o " " \o S(Defs[k].th) \o " " \o S(Defs[k].fi) \o " " \o S(Len(Defs[k].subs)), Defs[k].subs)
Init == c = NewCache /\ hist = <<>>
Do(new, cmd) == c' = [NewCache EXCEPT !.e = new.e] /\ hist' = Append(hist, cmd)
Next == \/ \E k \in Ops, b \in (IF Shape = 1 THEN {0} ELSE {-1, 0, 1}) :
             Do(TLCEval(Look(Defs, Cap, c, k, b).c), "clook " \o S(k) \o " " \o S(b))
        \/ Do(NewCache, "cclear")
View == c
Header == [k \in 1..5 |-> DefCmd(k - 1)]
(* after the transition, look at everything again: the content is observable only by hits *)
Probe == [k \in 1..5 |-> "clook " \o S(k - 1) \o " 0"]
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, "SCRIPT", Header \o hist' \o Probe))
==============================================================================
