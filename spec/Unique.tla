------------------------------- MODULE Unique -------------------------------
(* The unique table: storage is asked for, an object is built in it and        *)
(* unified; a duplicate is destroyed and its storage kept (one block, the      *)
(* largest) for the next request, or released.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions
CONSTANTS Vals, Extras, MaxPend, MaxLen, HashMode, N0
VARIABLES els,      \* id -> [v, cap]: unified objects with the size of their storage
          pend,     \* id -> [ex, cap]: storage asked for
          cached,   \* size of the kept storage, -1: none
          live,     \* blocks allocated and not released
          next, st, hist
vars == <<els, pend, cached, live, next, st, hist>>
S(x) == ToString(x)
None == [i \in {} |-> 0]
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
Init == els = None /\ pend = None /\ cached = -1 /\ live = 0 /\ next = 1 /\ hist = <<>>
        /\ st = [access |-> 0, hits |-> 0, misses |-> 0, peak |-> 0]
Allocate(ex) ==
  /\ Cardinality(DOMAIN pend) < MaxPend /\ next' = next + 1
  /\ IF cached >= ex THEN pend' = (next :> [ex |-> ex, cap |-> cached]) @@ pend /\ cached' = -1 /\ live' = live
     ELSE pend' = (next :> [ex |-> ex, cap |-> ex]) @@ pend /\ cached' = cached /\ live' = live + 1
  /\ UNCHANGED <<els, st>> /\ hist' = Append(hist, "ualloc " \o S(next) \o " " \o S(ex))
Put(i, v) ==
  /\ pend' = Drop(pend, {i}) /\ UNCHANGED next
  /\ IF \E j \in DOMAIN els : els[j].v = v
     THEN /\ st' = [st EXCEPT !.access = @ + 1, !.hits = @ + 1] /\ els' = els
          /\ IF pend[i].ex > cached THEN cached' = pend[i].ex /\ live' = IF cached = -1 THEN live ELSE live - 1
             ELSE cached' = cached /\ live' = live - 1
     ELSE /\ els' = (i :> [v |-> v, cap |-> pend[i].cap]) @@ els /\ UNCHANGED <<cached, live>>
          /\ st' = [st EXCEPT !.access = @ + 1, !.misses = @ + 1, !.peak = Max({@, Cardinality(DOMAIN els) + 1})]
  /\ hist' = Append(hist, "uput " \o S(i) \o " " \o S(v))
Erase(i) == /\ els' = Drop(els, {i}) /\ live' = live - 1 /\ UNCHANGED <<pend, cached, next, st>>
            /\ hist' = Append(hist, "uerase " \o S(i))
Next == (\E x \in Extras : Allocate(x)) \/ (\E i \in DOMAIN pend, v \in Vals : Put(i, v)) \/ (\E i \in DOMAIN els : Erase(i))
Spec == Init /\ [][Next]_vars

OneRep   == \A i, j \in DOMAIN els : els[i].v = els[j].v => i = j
NoLeak   == live = Cardinality(DOMAIN els) + Cardinality(DOMAIN pend) + (IF cached = -1 THEN 0 ELSE 1)
Roomy    == \A i \in DOMAIN pend : pend[i].cap >= pend[i].ex      \* storage is never too small for what it was asked for
Counted  == st.access = st.hits + st.misses /\ st.peak >= Cardinality(DOMAIN els)
Rank(f, i) == Cardinality({j \in DOMAIN f : j < i})
View == <<{<<Rank(els, i), els[i]>> : i \in DOMAIN els}, {<<Rank(pend, i), pend[i]>> : i \in DOMAIN pend}, cached, live, st.peak, st.access - st.hits - st.misses>>
Short == Len(hist) < MaxLen
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x \o ";ustat", "SCRIPT;start;unew " \o S(N0) \o " " \o S(HashMode), hist') \o ";udel")
=============================================================================
