------------------------------ MODULE Manager ------------------------------
(* Life cycle of the library for several configurations at once: managers     *)
(* (copies, moves, drops), and the diagrams the user holds meanwhile.          *)
(* Configurations 1 and 2 share a stateful type of values.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions, ManagerSem
CONSTANTS Ks, Slots, Held, Variants, MaxLen
VARIABLES own,     \* configuration -> slots that hold a manager
          held,    \* configuration -> (slot -> set of assignments)
          hist
vars == <<own, held, hist>>
S(x) == ToString(x)
Init == own = [k \in Ks |-> {}] /\ held = [k \in Ks |-> NoneHeld] /\ hist = <<>>
Free(k) == \A j \in Ks : Conflict(j, k) => own[j] = {}
Log(w) == hist' = Append(hist, w)
Start(k, d, v) ==
  /\ d \notin own[k]
  /\ own' = IF Free(k) THEN [own EXCEPT ![k] = {d}] ELSE own
  /\ UNCHANGED held /\ Log("init " \o S(k - 1) \o " " \o S(d) \o " " \o S(v))
Copy(k, d, a, w) ==
  /\ a \in own[k] /\ (w = "copy" \/ d \in own[k])
  /\ own' = [own EXCEPT ![k] = @ \cup {d}]
  /\ UNCHANGED held /\ Log(w \o " " \o S(k - 1) \o " " \o S(d) \o " " \o S(a))
Move(k, d, a, w) ==
  /\ a \in own[k] /\ d # a /\ (w = "move" \/ d \in own[k])
  /\ own' = [own EXCEPT ![k] = (@ \ {a}) \cup {d}]
  /\ UNCHANGED held /\ Log(w \o " " \o S(k - 1) \o " " \o S(d) \o " " \o S(a))
Drop(k, d) ==
  /\ d \in own[k] /\ (own[k] = {d} => held[k] = NoneHeld)
  /\ own' = [own EXCEPT ![k] = @ \ {d}]
  /\ UNCHANGED held /\ Log("drop " \o S(k - 1) \o " " \o S(d))
Put(k, s, X) == held' = [held EXCEPT ![k] = (s :> X) @@ @] /\ UNCHANGED own
Mk(k, s, a, b) == own[k] # {} /\ Put(k, s, Made(a, b)) /\ Log("mk " \o S(k - 1) \o " " \o S(s) \o " " \o S(a) \o " " \o S(b))
Op(k, s, t, o) == /\ {s, t} \subseteq DOMAIN held[k] /\ Put(k, s, Combine(held[k][s], held[k][t], o))
                  /\ Log("op " \o S(k - 1) \o " " \o S(s) \o " " \o S(t) \o " " \o S(o))
Close(k, s, h) == s \in DOMAIN held[k] /\ Put(k, s, Closure(held[k][s])) /\ Log("close " \o S(k - 1) \o " " \o S(s) \o " " \o S(h))
Forget(k, s) == /\ s \in DOMAIN held[k] /\ held' = [held EXCEPT ![k] = Without(@, s)] /\ UNCHANGED own
                /\ Log("forget " \o S(k - 1) \o " " \o S(s))
Reset(k, d) == d \in own[k] /\ UNCHANGED <<own, held>> /\ Log("reset " \o S(k - 1) \o " " \o S(d))
Next == \E k \in Ks :
          \/ \E d \in Slots, v \in Variants : Start(k, d, v)
          \/ \E d, a \in Slots : \/ \E w \in {"copy", "assign"} : Copy(k, d, a, w)
                                 \/ \E w \in {"move", "massign"} : Move(k, d, a, w)
          \/ \E d \in Slots : Drop(k, d) \/ Reset(k, d)
          \/ \E s \in Held : Mk(k, s, 1, 1) \/ Mk(k, s, 2, 0) \/ Close(k, s, Len(hist) % 2) \/ Forget(k, s) \/ \E t \in Held, o \in {0, 1, 2} : Op(k, s, t, o)
Spec == Init /\ [][Next]_vars

Exclusive == \A j, k \in Ks : j # k /\ Conflict(j, k) => own[j] = {} \/ own[k] = {}
InUse     == \A k \in Ks : held[k] # NoneHeld => own[k] # {}
Monotone  == [][\A k \in Ks : own[k] = {} /\ own'[k] # {} => held'[k] = NoneHeld]_vars   \* a fresh start is empty
View == <<own, held>>
Short == Len(hist) < MaxLen
(* at the end, everything is given back *)
Ending == LET ds == SetToSeq({<<k, s>> : k \in Ks, s \in Held}) ms == SetToSeq({<<k, d>> : k \in Ks, d \in Slots}) IN
          FoldLeft(LAMBDA a, p : IF p[2] \in own'[p[1]] THEN a \o ";drop " \o S(p[1] - 1) \o " " \o S(p[2]) ELSE a,
            FoldLeft(LAMBDA a, p : IF p[2] \in DOMAIN held'[p[1]] THEN a \o ";forget " \o S(p[1] - 1) \o " " \o S(p[2]) ELSE a, "", ds), ms)
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, "SCRIPT;start", hist') \o Ending)
=============================================================================
