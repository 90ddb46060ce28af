-------------------------------- MODULE Ptr --------------------------------
(* Reference-counted handles: each slot holds a handle on an object or         *)
(* nothing; an object refers to other objects (its kids).  Counting and        *)
(* releasing is modelled step by step; it must coincide with reachability.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions
CONSTANTS Slots, MaxObjs, MaxLen
VARIABLES slot,   \* slot -> object (0: none)
          objs,   \* object -> [kids, refs]
          next, hist
vars == <<slot, objs, next, hist>>
S(x) == ToString(x)
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
None == [i \in {} |-> 0]

Inc(o, i) == [o EXCEPT ![i].refs = @ + 1]
RECURSIVE Dec(_, _)
Dec(o, i) == LET p == [o EXCEPT ![i].refs = @ - 1] IN
             IF p[i].refs > 0 THEN p
             ELSE FoldLeft(LAMBDA q, k : Dec(q, k), Drop(p, {i}), o[i].kids)
DecOpt(o, i) == IF i = 0 THEN o ELSE Dec(o, i)

Init == slot = [s \in Slots |-> 0] /\ objs = None /\ next = 1 /\ hist = <<>>
Full == {s \in Slots : slot[s] # 0}
(* the slot takes a handle on i, counted first; what it held is given up after *)
Take(d, i, o) == /\ objs' = DecOpt(Inc(o, i), slot[d]) /\ slot' = [slot EXCEPT ![d] = i]
New(d, ks) ==
  /\ Cardinality(DOMAIN objs) < MaxObjs
  /\ LET kids == [k \in 1..Len(ks) |-> slot[ks[k]]]
         o == FoldLeft(LAMBDA q, k : Inc(q, k), objs, kids) IN
     Take(d, next, (next :> [kids |-> kids, refs |-> 0]) @@ o)
  /\ next' = next + 1
  /\ hist' = Append(hist, FoldLeft(LAMBDA a, k : a \o " " \o S(k), "pnew " \o S(d) \o " " \o S(next) \o " " \o S(Len(ks)), ks))
Copy(d, a) == Take(d, slot[a], objs) /\ UNCHANGED next /\ hist' = Append(hist, "pcopy " \o S(d) \o " " \o S(a))
Move(d, a) ==
  /\ IF d = a THEN UNCHANGED <<slot, objs>>
     ELSE slot' = [slot EXCEPT ![d] = slot[a], ![a] = 0] /\ objs' = DecOpt(objs, slot[d])
  /\ UNCHANGED next /\ hist' = Append(hist, "pmove " \o S(d) \o " " \o S(a))
Swap(d, a) == /\ slot' = [slot EXCEPT ![d] = slot[a], ![a] = slot[d]] /\ UNCHANGED <<objs, next>>
              /\ hist' = Append(hist, "pswap " \o S(d) \o " " \o S(a) \o " " \o S((d + a) % 3))
Kid(d, a, i, mv) == /\ Take(d, objs[slot[a]].kids[i], objs) /\ UNCHANGED next
                    /\ hist' = Append(hist, "pkid " \o S(d) \o " " \o S(a) \o " " \o S(i - 1) \o " " \o S(mv))
Del(d) == /\ objs' = Dec(objs, slot[d]) /\ slot' = [slot EXCEPT ![d] = 0] /\ UNCHANGED next
          /\ hist' = Append(hist, "pdel " \o S(d))
Next == \/ \E d \in Slots : New(d, <<>>) \/ (\E a \in Full : New(d, <<a>>)) \/ (\E a, b \in Full : New(d, <<a, b>>))
        \/ \E d \in Slots, a \in Full : Copy(d, a) \/ Move(d, a) \/ \E i \in 1..Len(objs[slot[a]].kids), mv \in {0, 1} : Kid(d, a, i, mv)
        \/ \E d, a \in Full : Swap(d, a)
        \/ \E d \in Full : Del(d)
Spec == Init /\ [][Next]_vars

Reach == LET RECURSIVE R(_) R(X) == LET Y == X \cup UNION {Range(objs[i].kids) : i \in X} IN IF Y = X THEN X ELSE R(Y)
         IN R({slot[s] : s \in Full})
Held(i) == Cardinality({s \in Slots : slot[s] = i}) + FoldLeft(LAMBDA a, k : a + Len(SelectSeq(objs[k].kids, LAMBDA x : x = i)), 0, SetToSeq(DOMAIN objs))
Safe    == \A s \in Full : slot[s] \in DOMAIN objs                      \* never a handle on a released object
Closed  == \A i \in DOMAIN objs : Range(objs[i].kids) \subseteq DOMAIN objs
Exact   == DOMAIN objs = Reach                                          \* released exactly when unreachable
Counts  == \A i \in DOMAIN objs : objs[i].refs = Held(i)
(* objects are immutable, and nothing but its own slot is affected by an assignment *)
Fixed   == [][\A i \in DOMAIN objs \cap DOMAIN objs' : objs'[i].kids = objs[i].kids]_vars
Rank(i) == IF i = 0 THEN 0 ELSE 1 + Cardinality({j \in DOMAIN objs : j < i})
View == <<[s \in Slots |-> Rank(slot[s])], {<<Rank(i), [k \in 1..Len(objs[i].kids) |-> Rank(objs[i].kids[k])]>> : i \in DOMAIN objs}>>
Short == Len(hist) < MaxLen
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, "SCRIPT;start;pinit", hist') \o ";pend")
=============================================================================
