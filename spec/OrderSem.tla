------------------------------ MODULE OrderSem ------------------------------
(* Orders.  A builder describes a sequence of <<identifier, nested sequence>>; *)
(* negative identifiers are the artificial ones.  The order numbers positions  *)
(* depth first and, at each level, variables from the last one upwards:        *)
(* <<identifier, position, variable, nested>>.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions

RECURSIVE Annot(_, _)
Annot(q, p) ==
  IF q = <<>> THEN [t |-> <<>>, p |-> p]
  ELSE LET sub == Annot(q[1][2], p + 1) rest == Annot(Tail(q), sub.p)
       IN [t |-> <<<<q[1][1], p, Len(q) - 1, sub.t>>>> \o rest.t, p |-> rest.p]
OrderOf(q) == Annot(q, 0).t
RECURSIVE Ids(_)
Ids(q) == IF q = <<>> THEN <<>> ELSE <<q[1][1]>> \o Ids(q[1][2]) \o Ids(Tail(q))
RECURSIVE Leaves(_)
Leaves(q) == IF q = <<>> THEN <<>> ELSE (IF q[1][2] = <<>> THEN <<q[1][1]>> ELSE Leaves(q[1][2])) \o Leaves(Tail(q))
User(l) == SelectSeq(l, LAMBDA i : i >= 0)
Duplicates(q) == LET l == User(Ids(q)) IN {l[i] : i \in {i \in 1..Len(l) : \E j \in 1..Len(l) : i # j /\ l[i] = l[j]}}

(* nodes of an annotated order with the positions of what they are nested in *)
RECURSIVE Nodes(_, _)
Nodes(a, path) ==
  IF a = <<>> THEN <<>>
  ELSE <<[id |-> a[1][1], pos |-> a[1][2], var |-> a[1][3], path |-> path,
          next |-> IF Len(a) > 1 THEN a[2][2] ELSE -1, nested |-> IF a[1][4] # <<>> THEN a[1][4][1][2] ELSE -1]>>
       \o Nodes(a[1][4], Append(path, a[1][2])) \o Nodes(Tail(a), path)
AllNodes(a) == Nodes(a, <<>>)
Containment(ns) == UNION {{<<ns[i].path[k], ns[i].pos>> : k \in 1..Len(ns[i].path)} : i \in 1..Len(ns)}
RECURSIVE Lines(_, _)
Lines(a, ind) == IF a = <<>> THEN <<>> ELSE <<<<ind, a[1][1], a[1][3]>>>> \o Lines(a[1][4], ind + 2) \o Lines(Tail(a), ind)
RECURSIVE FlatA(_)
FlatA(a) == IF a = <<>> THEN <<>> ELSE (IF a[1][4] = <<>> THEN <<a[1][1]>> ELSE FlatA(a[1][4])) \o FlatA(Tail(a))

(* what grouping must give: new artificial levels over the same items *)
RECURSIVE Ungroup(_, _)
Ungroup(r, old) == IF r = <<>> THEN <<>>
                   ELSE (IF r[1][1] < 0 /\ r[1][1] \notin old THEN Ungroup(r[1][2], old) ELSE <<r[1]>>) \o Ungroup(Tail(r), old)
RECURSIVE Widths(_, _)       \* sizes of the levels that grouping makes
Widths(r, old) == {Len(r)} \cup UNION {Widths(r[i][2], old) : i \in {i \in 1..Len(r) : r[i][1] < 0 /\ r[i][1] \notin old}}
RECURSIVE NewArts(_, _)
NewArts(r, old) == FoldLeft(LAMBDA a, x : a \o (IF x[1] < 0 /\ x[1] \notin old THEN <<x[1]>> \o NewArts(x[2], old) ELSE <<>>), <<>>, r)
GroupedOK(q, n, r, old) ==
  IF n = 1 THEN r = q
  ELSE /\ Ungroup(r, old) = q
       /\ \A w \in Widths(r, old) : w <= n
       /\ LET na == NewArts(r, old) IN Cardinality(Range(na)) = Len(na)        \* each artificial identifier is new

(* Orders as JSON: arrays for the levels, names of hierarchies are not kept;    *)
(* items are <<identifier, <<>>>> or <<-1, array>>.  Loading merges a level     *)
(* that holds a single element (or none) with the one above.                    *)
RECURSIVE Dumped(_)
Dumped(q) == [i \in 1..Len(q) |-> IF q[i][2] = <<>> THEN q[i] ELSE <<-1, Dumped(q[i][2])>>]
RECURSIVE LoadItems(_)
LoadItems(t) == IF t = <<>> THEN <<>>
                ELSE (IF t[1][1] # -1 THEN <<t[1]>> ELSE LET n == LoadItems(t[1][2]) IN IF Len(n) <= 1 THEN n ELSE <<<<-1, n>>>>) \o LoadItems(Tail(t))
Loaded(t) == LET n == LoadItems(t) IN IF Len(n) = 1 /\ n[1][2] # <<>> THEN n[1][2] ELSE n
RECURSIVE Anonymous(_)       \* artificial identifiers without their numbers
Anonymous(q) == [i \in 1..Len(q) |-> <<IF q[i][1] < 0 THEN -1 ELSE q[i][1], Anonymous(q[i][2])>>]
RECURSIVE NoSingle(_)
NoSingle(q) == \A i \in 1..Len(q) : q[i][2] = <<>> \/ (Len(q[i][2]) > 1 /\ NoSingle(q[i][2]))
RECURSIVE ReadItems(_)       \* items of a script: -1 opens an array, -2 closes it, -3 is a text where a number is expected
ReadItems(w) ==
  IF w = <<>> THEN [t |-> <<>>, w |-> <<>>]
  ELSE IF w[1] = -2 THEN [t |-> <<>>, w |-> Tail(w)]
  ELSE LET sub == IF w[1] = -1 THEN ReadItems(Tail(w)) ELSE [t |-> <<>>, w |-> Tail(w)]
           rest == ReadItems(sub.w)
       IN [t |-> <<<<w[1], sub.t>>>> \o rest.t, w |-> rest.w]

(* total span of a sequence of vertices for the hyperedges *)
IndexIn(r, x) == CHOOSE i \in 1..Len(r) : r[i] = x
Span(r, edge) == LET P == {IndexIn(r, x) : x \in Range(edge)} IN Max(P) - Min(P)
TotalSpan(r, edges) == FoldLeft(LAMBDA a, e : a + Span(r, e), 0, edges)
=============================================================================
