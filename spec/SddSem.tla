------------------------------- MODULE SddSem -------------------------------
(* Meaning of hierarchical set decision diagrams, independent of any           *)
(* representation.                                                             *)
(*                                                                             *)
(* A diagram denotes a finite set of assignments.  An assignment is a sequence *)
(* of elements, one per variable from top to bottom:                           *)
(*    <<var, value, 0>>     for a flat variable (value: index in the value     *)
(*                          table of the configuration),                       *)
(*    <<var, assignment>>   for a hierarchical variable.                       *)
(* The two kinds have different lengths so that TLC can compare them.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

FlatElt(v, x) == <<v, x, 0>>
HierElt(v, a) == <<v, a>>
IsFlatElt(e)  == Len(e) = 3

ZeroSet == {}
OneSet  == {<<>>}
FlatSet(v, W, S) == {<<FlatElt(v, x)>> \o s : x \in W, s \in S}
HierSet(v, A, S) == {<<HierElt(v, a)>> \o s : a \in A, s \in S}

(* The variables of an assignment, with their nesting. *)
RECURSIVE Sig(_)
Sig(a) == [i \in 1..Len(a) |-> IF IsFlatElt(a[i]) THEN <<a[i][1]>>
                               ELSE <<a[i][1], Sig(a[i][2])>>]

(* Two sets are over the same variables. *)
SameVars(A, B)  == Cardinality({Sig(a) : a \in A \cup B}) <= 1
SameVarsAll(F)  == Cardinality({Sig(a) : a \in UNION F}) <= 1

(* What stands at the root of a non-empty diagram: the terminal, or a variable *)
(* with its kind.  All assignments of a diagram agree on it.                   *)
Root(A) == LET a == CHOOSE a \in A : TRUE
           IN  IF a = <<>> THEN <<>> ELSE <<a[1][1], Len(a[1])>>

(* Possible outcomes of the set operations.  Operands over the same variables  *)
(* give the exact result.  Non-empty different operands whose roots differ are *)
(* refused.  In between (the incompatibility lies below the root, or among     *)
(* more than two operands), whether the evaluation has to combine the          *)
(* incompatible parts depends on the operands: it is refused or exact.         *)
Exact(op, A, B) == CASE op = "+" -> A \cup B
                     [] op = "&" -> A \cap B
                     [] op = "-" -> A \ B
MustRefuse(A, B) == A # {} /\ B # {} /\ A # B /\ Root(A) # Root(B)
MayRefuse(A, B)  == A # {} /\ B # {} /\ ~SameVars(A, B)

ExactN(op, F) ==             \* F: non-empty sequence of sets
  IF op = "+" THEN UNION Range(F)
  ELSE FoldLeft(LAMBDA acc, s : acc \cap s, F[1], Tail(F))
MustRefuseN(op, F) ==
  LET N == {s \in Range(F) : s # {}} IN
  CASE op = "+" -> Cardinality(N) = 2 /\ \E A, B \in N : MustRefuse(A, B)
    [] op = "&" -> Cardinality(Range(F)) = 2 /\ \E A, B \in Range(F) : MustRefuse(A, B)
MayRefuseN(op, F) == ~SameVarsAll(Range(F))

(* Structure of a diagram as it is stored: n.v variable, n.k 0 flat / 1        *)
(* hierarchical, n.a sequence of arcs <<valuation, successor>>.                *)
ArcVals(arc) == Range(arc[1])
DenNode(n, den) ==
  IF n.k = 0
  THEN UNION {FlatSet(n.v, ArcVals(n.a[i]), den[n.a[i][2]]) : i \in 1..Len(n.a)}
  ELSE UNION {HierSet(n.v, den[n.a[i][1]], den[n.a[i][2]])  : i \in 1..Len(n.a)}

(* Canonical form of one node, given the sets denoted by its valuations and    *)
(* successors (themselves canonical). *)
CanonNode(n, den) ==
  LET K == 1..Len(n.a)
      Val(i) == IF n.k = 0 THEN ArcVals(n.a[i]) ELSE den[n.a[i][1]]
  IN  /\ Len(n.a) > 0
      /\ \A i \in K : Val(i) # {} /\ den[n.a[i][2]] # {}
      /\ \A i, j \in K : i < j => /\ Val(i) \cap Val(j) = {}
                                  /\ den[n.a[i][2]] # den[n.a[j][2]]

(* Nodes reachable from a set of ids. *)
Children(n) == {n.a[i][2] : i \in 1..Len(n.a)} \cup
               (IF n.k = 1 THEN {n.a[i][1] : i \in 1..Len(n.a)} ELSE {})
RECURSIVE ReachFrom(_, _, _)
ReachFrom(todo, seen, nod) ==
  IF todo = {} THEN seen
  ELSE LET next == UNION {IF i \in DOMAIN nod THEN Children(nod[i]) ELSE {} : i \in todo}
       IN  ReachFrom(next \ (seen \cup todo), seen \cup todo, nod)
Reach(ids, nod) == ReachFrom(ids, {}, nod)

(* Assignments of the diagram as plain sequences of values, nested variables   *)
(* expanded in place (what the enumeration of paths shows). *)
RECURSIVE Flatten(_)
Flatten(a) == IF a = <<>> THEN <<>>
              ELSE IF IsFlatElt(a[1]) THEN <<a[1][2]>> \o Flatten(Tail(a))
              ELSE Flatten(a[1][2]) \o Flatten(Tail(a))
FlatAssigns(A) == {Flatten(a) : a \in A}
RECURSIVE Tuples(_)          \* all tuples covered by one path (sequence of value lists)
Tuples(p) == IF p = <<>> THEN {<<>>}
             ELSE {<<x>> \o t : x \in Range(p[1]), t \in Tuples(Tail(p))}

(* Natural numbers of any size, little endian in base 10000. *)
BASE == 10000
RECURSIVE BigNorm(_, _)
BigNorm(s, carry) ==
  IF s = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % BASE>> \o BigNorm(<<>>, carry \div BASE)
  ELSE LET t == s[1] + carry IN <<t % BASE>> \o BigNorm(Tail(s), t \div BASE)
BigAdd(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      D(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
  IN  BigNorm([i \in 1..n |-> D(a, i) + D(b, i)], 0)
BigScale(a, k) == IF k = 0 THEN <<>> ELSE BigNorm([i \in 1..Len(a) |-> a[i] * k], 0)
RECURSIVE BigMul(_, _)
BigMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
                ELSE BigAdd(BigScale(a, b[1]), LET m == BigMul(a, Tail(b)) IN IF m = <<>> THEN <<>> ELSE <<0>> \o m)
CountNode(n, cnt) ==
  FoldLeft(LAMBDA acc, arc :
             BigAdd(acc, IF n.k = 0 THEN BigScale(cnt[arc[2]], Cardinality(ArcVals(arc)))
                         ELSE BigMul(cnt[arc[1]], cnt[arc[2]])),
           <<>>, n.a)
=============================================================================
