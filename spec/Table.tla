------------------------------- MODULE Table -------------------------------
(* The hash table behind every unique table and cache: buckets of chained      *)
(* elements, doubled when the load factor reaches 3/4 (not in the fixed one).  *)
(* The content must be the set of elements inserted and not erased.            *)
(*                                                                             *)
(* An element is [id, v]; two elements are equal when they have the same v.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt
CONSTANTS Vals, HashMode, N0, Fixed, MaxLen
VARIABLES nb, buckets, size,   \* the table
          abs,                 \* what it must hold
          pend,                \* fixed table: values checked absent, not yet committed
          next, last, hist
vars == <<nb, buckets, size, abs, pend, next, last, hist>>

S(x) == ToString(x)
Hash(v) == CASE HashMode = 0 -> v [] HashMode = 1 -> 0 [] HashMode = 2 -> v % 2 [] OTHER -> 4 * v
IndexOf(q, v) == IF \E i \in 1..Len(q) : q[i].v = v THEN CHOOSE i \in 1..Len(q) : q[i].v = v ELSE 0
Empty(n) == [i \in 0..(n - 1) |-> <<>>]
InsertIn(bs, n, x) == [bs EXCEPT ![Hash(x.v) % n] = <<x>> \o @]
Elements == UNION {Range(buckets[i]) : i \in 0..(nb - 1)}
Grow(n, bs) == FoldLeft(LAMBDA a, x : InsertIn(a, 2 * n, x), Empty(2 * n), FoldLeft(LAMBDA a, i : a \o bs[i - 1], <<>>, [i \in 1..n |-> i]))

Init == nb = N0 /\ buckets = Empty(N0) /\ size = 0 /\ abs = {} /\ pend = {} /\ next = 1 /\ last = [id |-> 0, new |-> FALSE] /\ hist = <<>>
InsertNew(x) ==
  LET bs == InsertIn(buckets, nb, x) grow == 4 * (size + 1) >= 3 * nb IN
  /\ size' = size + 1
  /\ IF grow THEN nb' = 2 * nb /\ buckets' = Grow(nb, bs) ELSE nb' = nb /\ buckets' = bs
Insert(v) ==
  /\ ~Fixed /\ next' = next + 1 /\ pend' = pend
  /\ LET q == buckets[Hash(v) % nb] i == IndexOf(q, v) x == [id |-> next, v |-> v] IN
     /\ IF i # 0 THEN UNCHANGED <<nb, buckets, size>> /\ last' = [id |-> q[i].id, new |-> FALSE]
        ELSE InsertNew(x) /\ last' = [id |-> next, new |-> TRUE]
     /\ abs' = IF \E y \in abs : y.v = v THEN abs ELSE abs \cup {x}
  /\ hist' = Append(hist, "hins " \o S(next) \o " " \o S(v))
Check(v) ==
  /\ Fixed /\ v \notin pend
  /\ LET q == buckets[Hash(v) % nb] i == IndexOf(q, v) IN
     /\ last' = [id |-> IF i # 0 THEN q[i].id ELSE -1, new |-> i = 0]
     /\ pend' = IF i = 0 THEN pend \cup {v} ELSE pend
  /\ UNCHANGED <<nb, buckets, size, abs, next>> /\ hist' = Append(hist, "hcheck " \o S(v))
Commit(v) ==
  /\ v \in pend /\ pend' = pend \ {v} /\ next' = next + 1
  /\ LET x == [id |-> next, v |-> v] IN
     /\ buckets' = [buckets EXCEPT ![Hash(v) % nb] = Append(@, x)] /\ abs' = abs \cup {x}
  /\ size' = size + 1 /\ UNCHANGED <<nb, last>> /\ hist' = Append(hist, "hcommit " \o S(next) \o " " \o S(v))
Erase(x) ==
  /\ LET q == buckets[Hash(x.v) % nb] i == IndexOf(q, x.v) IN
     buckets' = [buckets EXCEPT ![Hash(x.v) % nb] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
  /\ size' = size - 1 /\ abs' = abs \ {x} /\ UNCHANGED <<nb, pend, next, last>>
  /\ hist' = Append(hist, "herase " \o S(x.id))
Clear == /\ buckets' = Empty(nb) /\ size' = 0 /\ abs' = {} /\ UNCHANGED <<nb, pend, next, last>> /\ hist' = Append(hist, "hclear")
Next == (\E v \in Vals : Insert(v) \/ Check(v) \/ Commit(v)) \/ (\E x \in abs : Erase(x)) \/ Clear
Spec == Init /\ [][Next]_vars

Content == Elements = abs
Sized   == size = Cardinality(abs) /\ size = FoldLeft(LAMBDA a, i : a + Len(buckets[i - 1]), 0, [i \in 1..nb |-> i])
Unique  == \A x, y \in abs : x.v = y.v => x = y
Placed  == \A i \in 0..(nb - 1) : \A k \in 1..Len(buckets[i]) : Hash(buckets[i][k].v) % nb = i
Loaded  == ~Fixed => 4 * size < 3 * nb \/ size = 0
Answer  == [][\A v \in Vals : Insert(v) => last'.id = (CHOOSE y \in abs' : y.v = v).id /\ last'.new = (abs' # abs)]_vars

Rank(i) == Cardinality({y \in abs : y.id < i})
View == <<nb, [i \in 0..(nb - 1) |-> [k \in 1..Len(buckets[i]) |-> <<Rank(buckets[i][k].id), buckets[i][k].v>>]], size, pend>>
Short == Len(hist) < MaxLen
Head0 == "SCRIPT;start;hnew " \o S(N0) \o (IF Fixed THEN " 1 " ELSE " 0 ") \o S(HashMode)
(* afterwards ask for every value that is not pending *)
RECURSIVE Probes(_)
Probes(vs) == IF vs = {} THEN "" ELSE LET v == Min(vs) IN
   (IF Fixed THEN ";hcheck " \o S(v) ELSE ";hins " \o S(100 + v) \o " " \o S(v)) \o Probes(vs \ {v})
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, Head0, hist') \o Probes(IF Fixed THEN Vals \ pend' ELSE Vals) \o ";hclear")
=============================================================================
