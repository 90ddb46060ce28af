------------------------------- MODULE Arena -------------------------------
(* The scratch allocator: an arena of N cells used as a stack, with scopes     *)
(* that give back in bulk what was taken since they began, and the heap when   *)
(* the arena is full.                                                          *)
(*                                                                             *)
(* A block is [off, n, d]: offset in the arena (-1: from the heap), size,      *)
(* depth of the scope that made it.  The memory itself is modelled: mem maps   *)
(* each arena cell to the block that last wrote it.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions
CONSTANTS N, Sizes, MaxLive, MaxDepth, MaxLen
VARIABLES pos, scopes, blocks, mem, next, hist
vars == <<pos, scopes, blocks, mem, next, hist>>

S(x) == ToString(x)
Cells(b) == IF b.off = -1 THEN {} ELSE b.off .. (b.off + b.n - 1)
InArena == {i \in DOMAIN blocks : blocks[i].off # -1}
Top == Max({0} \cup {blocks[i].off + blocks[i].n : i \in {j \in InArena : blocks[j].n > 0}})
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]

Init == pos = 0 /\ scopes = <<>> /\ blocks = <<>> /\ mem = [x \in 0..(N - 1) |-> 0] /\ next = 1 /\ hist = <<>>
Alloc(n) ==
  /\ Cardinality(DOMAIN blocks) < MaxLive
  /\ LET off == IF pos + n <= N THEN pos ELSE -1
         b == [off |-> off, n |-> n, d |-> Len(scopes)] IN
     /\ blocks' = (next :> b) @@ blocks
     /\ pos' = IF off = -1 THEN pos ELSE pos + n
     /\ mem' = [x \in DOMAIN mem |-> IF x \in Cells(b) THEN next ELSE mem[x]]
  /\ next' = next + 1 /\ UNCHANGED scopes
  /\ hist' = Append(hist, "aalloc " \o S(next) \o " " \o S(n) \o " 0")
Free(i) ==
  /\ LET b == blocks[i] IN pos' = IF b.off # -1 /\ b.off + b.n = pos THEN b.off ELSE pos
  /\ blocks' = Drop(blocks, {i}) /\ UNCHANGED <<scopes, mem, next>>
  /\ hist' = Append(hist, "afree " \o S(i))
Begin == /\ Len(scopes) < MaxDepth /\ scopes' = Append(scopes, pos) /\ UNCHANGED <<pos, blocks, mem, next>>
         /\ hist' = Append(hist, "abegin")
Dying == {i \in InArena : blocks[i].d >= Len(scopes)}
End == /\ scopes # <<>> /\ pos' = Last(scopes) /\ scopes' = Front(scopes)
       /\ blocks' = Drop(blocks, Dying) /\ UNCHANGED <<mem, next>>
       /\ hist' = Append(hist, FoldLeft(LAMBDA a, i : a \o " " \o S(i), "aend " \o S(Cardinality(Dying)), SetToSeq(Dying)))
Next == (\E n \in Sizes : Alloc(n)) \/ (\E i \in DOMAIN blocks : Free(i)) \/ Begin \/ End
Spec == Init /\ [][Next]_vars

Disjoint == \A i, j \in DOMAIN blocks : i # j => Cells(blocks[i]) \cap Cells(blocks[j]) = {}
Intact   == \A i \in DOMAIN blocks : \A x \in Cells(blocks[i]) : mem[x] = i
InRange  == pos \in 0..N /\ \A i \in DOMAIN blocks : Cells(blocks[i]) \subseteq 0..(N - 1)
Above    == Top <= pos                        \* nothing alive above the position
Nested   == \A k \in 1..Len(scopes) : scopes[k] \in 0..N

(* for TLC: block names are irrelevant, so compare states up to them *)
Rank(i) == Cardinality({j \in DOMAIN blocks : j < i})
View == <<Intact, pos, scopes, {<<Rank(i), blocks[i]>> : i \in DOMAIN blocks}>>
Short == Len(hist) < MaxLen
Scale == "anew " \o S(N)
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, "SCRIPT;start;" \o Scale, hist') \o ";adel")
=============================================================================
