-------------------------------- MODULE Cache --------------------------------
(* The operation cache as a state machine, one step per lookup, return, throw  *)
(* and clear, with the stack of evaluations under way.  Checked: the cache is  *)
(* bounded, holds distinct operations with the value recomputation would give, *)
(* the statistics count exactly these events, an evaluation that throws leaves *)
(* nothing behind; and the big-step meaning used for conformance (CacheSem)    *)
(* agrees with the small steps.                                                *)
EXTENDS CacheSem
CONSTANTS Ops, Cap, MaxLooks, MaxThrows, Subs, Filter
(* Subs: operation -> sequence of smaller operations *)
Defs == [k \in Ops |-> [th |-> 0, fi |-> IF k \in Filter THEN 1 ELSE 0, subs |-> Subs[k]]]

VARIABLES ents,     \* cached operations with their value, oldest first
          stack,    \* evaluations under way: [k, i, r]
          hits, misses, filt, disc,
          evals,    \* evaluations started
          inserts,  \* entries made since the last clear
          evict,    \* entries evicted since the last clear
          ret,      \* value returned by the last completed lookup of the outermost level
          looks, throws,
          pre       \* state at the beginning of the outermost lookup, for the comparison
vars == <<ents, stack, hits, misses, filt, disc, evals, inserts, evict, ret, looks, throws, pre>>

Keys == [i \in 1..Len(ents) |-> ents[i].k]
St == [e |-> Keys, h |-> hits, m |-> misses, f |-> filt, d |-> disc]
Init == /\ ents = <<>> /\ stack = <<>> /\ hits = 0 /\ misses = 0 /\ filt = 0 /\ disc = 0 /\ evals = <<>>
        /\ inserts = 0 /\ evict = 0 /\ ret = <<>> /\ looks = 0 /\ throws = 0 /\ pre = [c |-> NewCache, k |-> -1]

(* lookup of k, then continuation: feed the value to the frame below or return *)
Feed(v, stk) == IF stk = <<>> THEN stk ELSE [stk EXCEPT ![Len(stk)] = [@ EXCEPT !.r = Combine(@, v), !.i = @ + 1]]
Find(k) == {i \in 1..Len(ents) : ents[i].k = k}
DoLook(k, stk) ==
  IF k \in Filter
  THEN /\ filt' = filt + 1 /\ stack' = Append(stk, [k |-> k, i |-> 1, r |-> 7 * k + 1]) /\ evals' = Append(evals, k)
       /\ UNCHANGED <<ents, hits, misses, disc, inserts, evict, ret>>
  ELSE IF Find(k) # {}
  THEN LET i == CHOOSE i \in Find(k) : TRUE IN
       /\ hits' = hits + 1
       /\ ents' = Append(Without(ents, i), ents[i])
       /\ stack' = Feed(ents[i].v, stk)
       /\ ret' = IF stk = <<>> THEN <<ents[i].v>> ELSE ret
       /\ UNCHANGED <<misses, filt, disc, evals, inserts, evict>>
  ELSE /\ misses' = misses + 1 /\ stack' = Append(stk, [k |-> k, i |-> 1, r |-> 7 * k + 1]) /\ evals' = Append(evals, k)
       /\ UNCHANGED <<ents, hits, filt, disc, inserts, evict, ret>>
Call(k) == /\ stack = <<>> /\ looks < MaxLooks /\ looks' = looks + 1
           /\ pre' = [c |-> St, k |-> k]
           /\ IF k \in Filter \/ Find(k) = {}
              THEN /\ stack' = <<[k |-> k, i |-> 1, r |-> 7 * k + 1]>>
                   /\ evals' = <<k>>
                   /\ IF k \in Filter THEN filt' = filt + 1 /\ misses' = misses ELSE misses' = misses + 1 /\ filt' = filt
                   /\ UNCHANGED <<ents, hits, disc, inserts, evict>> /\ ret' = <<>>
              ELSE LET i == CHOOSE i \in Find(k) : TRUE IN
                   /\ hits' = hits + 1 /\ ents' = Append(Without(ents, i), ents[i]) /\ ret' = <<ents[i].v>> /\ stack' = <<>> /\ evals' = <<>>
                   /\ UNCHANGED <<misses, filt, disc, inserts, evict>>
           /\ UNCHANGED throws
Sub == /\ stack # <<>>
       /\ LET t == Last(stack) IN t.i <= Len(Subs[t.k]) /\ DoLook(Subs[t.k][t.i], stack)
       /\ UNCHANGED <<looks, throws, pre>>
Return ==
  /\ stack # <<>>
  /\ LET t == Last(stack) below == SubSeq(stack, 1, Len(stack) - 1) IN
     /\ t.i > Len(Subs[t.k])
     /\ stack' = Feed(t.r, below)
     /\ ret' = IF below = <<>> THEN <<t.r>> ELSE ret
     /\ IF t.k \in Filter THEN UNCHANGED <<ents, disc, inserts, evict>>
        ELSE IF Len(ents) >= Cap
        THEN /\ ents' = Append(Tail(ents), [k |-> t.k, v |-> t.r]) /\ disc' = disc + 1 /\ evict' = evict + 1 /\ inserts' = inserts + 1
        ELSE /\ ents' = Append(ents, [k |-> t.k, v |-> t.r]) /\ inserts' = inserts + 1 /\ UNCHANGED <<disc, evict>>
  /\ UNCHANGED <<hits, misses, filt, evals, looks, throws, pre>>
Throw == /\ stack # <<>> /\ throws < MaxThrows /\ throws' = throws + 1
         /\ stack' = <<>> /\ ret' = <<>>
         /\ pre' = [pre EXCEPT !.k = -1]
         /\ UNCHANGED <<ents, hits, misses, filt, disc, evals, inserts, evict, looks>>
Clear == /\ stack = <<>> /\ ents' = <<>> /\ inserts' = 0 /\ evict' = 0 /\ pre' = [pre EXCEPT !.k = -1]
         /\ UNCHANGED <<stack, hits, misses, filt, disc, evals, ret, looks, throws>>
Next == (\E k \in Ops : Call(k)) \/ Sub \/ Return \/ Throw \/ Clear
Spec == Init /\ [][Next]_vars

Bounded  == Len(ents) <= Cap
Distinct == \A i, j \in 1..Len(ents) : i # j => ents[i].k # ents[j].k
Exact    == /\ \A i \in 1..Len(ents) : ents[i].v = Pure(Defs, ents[i].k)
            /\ (stack = <<>> /\ pre.k # -1) => ret = <<Pure(Defs, pre.k)>>
NoFiltered == \A i \in 1..Len(ents) : ents[i].k \notin Filter
Counted  == /\ inserts - evict = Len(ents)
            /\ stack = <<>> /\ throws = 0 => misses >= disc + Len(ents)
(* when an outermost lookup has completed, the big-step outcome is the same *)
BigStep  == (stack = <<>> /\ pre.k # -1) =>
              LET o == Look(Defs, Cap, pre.c, pre.k, 0) IN o.c = St /\ <<o.r>> = ret /\ (misses + filt # pre.c.m + pre.c.f => o.ev = evals)
(* a hit does not evaluate; an operation is evaluated only if absent *)
LruOrder == [][\A k \in Ops : (k \in Range(Keys) /\ k \notin {ents'[i].k : i \in 1..Len(ents')}) =>
                 (ents' = <<>> \/ k = ents[1].k)]_vars
==============================================================================
