------------------------------ MODULE CacheSem ------------------------------
(* What a lookup in the operation cache does.                                  *)
(*                                                                             *)
(* An operation k evaluates to Pure(defs, k): it looks up its sub-operations   *)
(* in order (through the cache), and may throw.  The cache state c is          *)
(*   [e |-> entries, oldest first, h |-> hits, m |-> misses, f |-> filtered,   *)
(*    d |-> discarded].                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NoDef == [th |-> 0, fi |-> 0, subs |-> <<>>]
DefOf(defs, k) == IF k \in DOMAIN defs THEN defs[k] ELSE NoDef
Filtered(defs, k) == DefOf(defs, k).fi # 0 \/ k >= 900
Combine(r, s) == (3 * r + s) % 9973
Pos(e, k) == IF \E i \in 1..Len(e) : e[i] = k THEN CHOOSE i \in 1..Len(e) : e[i] = k ELSE 0
Without(e, i) == SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))

(* The value of an operation, without any cache. *)
RECURSIVE Pure(_, _)
Pure(defs, k) == FoldLeft(LAMBDA r, s : Combine(r, Pure(defs, s)), 7 * k + 1, DefOf(defs, k).subs)

(* Outcome of a lookup: new state, result, exception, evaluations made, and    *)
(* how many throws are still to come (-1: all).                                *)
RECURSIVE Look(_, _, _, _, _)
RECURSIVE EvalSubs(_, _, _, _, _, _, _)
Throws(defs, k, b) == DefOf(defs, k).th # 0 /\ b # 0
Spend(b) == IF b > 0 THEN b - 1 ELSE b
(* o: [c, r, ok, by, ev, b] *)
EvalSubs(defs, cap, k, i, o, subs, dummy) ==
  IF ~o.ok THEN o
  ELSE IF DefOf(defs, k).th = 2 /\ i = 2 /\ i <= Len(subs) /\ o.b # 0
  THEN [o EXCEPT !.ok = FALSE, !.by = k, !.b = Spend(@)]
  ELSE IF i > Len(subs)
  THEN IF Throws(defs, k, o.b) THEN [o EXCEPT !.ok = FALSE, !.by = k, !.b = Spend(@)] ELSE o
  ELSE LET s == Look(defs, cap, o.c, subs[i], o.b)
       IN  EvalSubs(defs, cap, k, i + 1,
             [c |-> s.c, r |-> Combine(o.r, s.r), ok |-> s.ok, by |-> s.by, ev |-> o.ev \o s.ev, b |-> s.b], subs, dummy)
Evaluate(defs, cap, c, k, b) ==
  EvalSubs(defs, cap, k, 1, [c |-> c, r |-> 7 * k + 1, ok |-> TRUE, by |-> -1, ev |-> <<k>>, b |-> b], DefOf(defs, k).subs, 0)
Insert(c, cap, k) ==
  IF Len(c.e) >= cap THEN [c EXCEPT !.e = Append(Tail(@), k), !.d = @ + 1] ELSE [c EXCEPT !.e = Append(@, k)]
Look(defs, cap, c, k, b) ==
  IF Filtered(defs, k) THEN Evaluate(defs, cap, [c EXCEPT !.f = @ + 1], k, b)
  ELSE LET i == Pos(c.e, k) IN
       IF i # 0 THEN [c |-> [c EXCEPT !.h = @ + 1, !.e = Append(Without(@, i), k)], r |-> Pure(defs, k), ok |-> TRUE, by |-> -1, ev |-> <<>>, b |-> b]
       ELSE LET o == Evaluate(defs, cap, [c EXCEPT !.m = @ + 1], k, b)
            IN  IF o.ok THEN [o EXCEPT !.c = Insert(o.c, cap, k)] ELSE o

NewCache == [e |-> <<>>, h |-> 0, m |-> 0, f |-> 0, d |-> 0]
=============================================================================
