------------------------------- MODULE HomSem -------------------------------
(* Meaning of homomorphism terms: what a homomorphism maps a set of            *)
(* assignments to.                                                             *)
(*                                                                             *)
(* An order is a sequence of <<identifier, nested order>>; the variable of the *)
(* i-th entry of a level with n entries is n - i.                              *)
EXTENDS SddSem

VarAt(o, i)   == Len(o) - i
EntryOf(o, v) == o[Len(o) - v]            \* entry of the level with variable v
HasVar(o, v)  == v < Len(o)

RECURSIVE IdsOf(_)
IdsOf(o) == IF o = <<>> THEN {} ELSE {o[1][1]} \cup IdsOf(o[1][2]) \cup IdsOf(Tail(o))

(* Variables on the way to identifier x, from the top level; <<>> if absent. *)
RECURSIVE PathIn(_, _, _)
PathIn(o, i, x) ==
  IF i > Len(o) THEN <<>>
  ELSE IF o[i][1] = x THEN <<VarAt(o, i)>>
  ELSE LET sub == PathIn(o[i][2], 1, x)
       IN  IF sub # <<>> THEN <<VarAt(o, i)>> \o sub ELSE PathIn(o, i + 1, x)
PathTo(o, x) == PathIn(o, 1, x)

(* Index of the element of assignment a with variable v, 0 if none. *)
IndexOf(a, v) == IF \E i \in 1..Len(a) : a[i][1] = v THEN CHOOSE i \in 1..Len(a) : a[i][1] = v ELSE 0

(* Images of assignment a when value x of the variable at the end of path is   *)
(* replaced by each of tab[x+1]. *)
RECURSIVE MapAt(_, _, _)
MapAt(a, path, tab) ==
  LET i == IndexOf(a, path[1]) IN
  IF i = 0 THEN {a}
  ELSE IF Len(path) = 1
  THEN IF ~IsFlatElt(a[i]) THEN {a}
       ELSE {[a EXCEPT ![i] = FlatElt(path[1], y)] : y \in Range(tab[a[i][2] + 1])}
  ELSE IF IsFlatElt(a[i]) THEN {a}
       ELSE {[a EXCEPT ![i] = HierElt(path[1], b)] : b \in MapAt(a[i][2], Tail(path), tab)}

(* Every flat variable, at every level. *)
RECURSIVE MapAll(_, _)
MapAll(a, tab) ==
  IF a = <<>> THEN {<<>>}
  ELSE LET heads == IF IsFlatElt(a[1]) THEN {FlatElt(a[1][1], y) : y \in Range(tab[a[1][2] + 1])}
                    ELSE {HierElt(a[1][1], b) : b \in MapAll(a[1][2], tab)}
       IN  {<<h>> \o t : h \in heads, t \in MapAll(Tail(a), tab)}

(* Inductive homomorphisms of the drivers' user code, applied to assignment a  *)
(* of order o.  Kinds 0, 1, 3: map the values of the identifier x of this      *)
(* level (1: without skipping, 3: declared as a selector); 2: map the values   *)
(* of all variables at all levels; 4: give y, when it comes after x on this    *)
(* level, the value of x.                                                      *)
IndImage(t, o, a) ==
  LET n == Len(o)
      vx == IF \E i \in 1..n : o[i][1] = t.x THEN n - (CHOOSE i \in 1..n : o[i][1] = t.x) ELSE -1
      vy == IF \E i \in 1..n : o[i][1] = t.y THEN n - (CHOOSE i \in 1..n : o[i][1] = t.y) ELSE -1
      ix == IF vx = -1 THEN 0 ELSE IndexOf(a, vx)
      iy == IF vy = -1 THEN 0 ELSE IndexOf(a, vy)
  IN  CASE t.kind \in {0, 1, 3} ->
             IF ix = 0 \/ ~IsFlatElt(a[ix]) THEN {a} ELSE MapAt(a, <<vx>>, t.tab)
        [] t.kind = 2 -> MapAll(a, t.tab)
        [] t.kind = 4 ->
             IF ix = 0 \/ ~IsFlatElt(a[ix]) \/ iy <= ix \/ ~IsFlatElt(a[iy]) THEN {a}
             ELSE {[a EXCEPT ![iy] = FlatElt(vy, a[ix][2])]}

RECURSIVE Eval(_, _, _)
RECURSIVE FixIter(_, _, _)
Eval(t, o, S) ==
  IF S = {} THEN {} ELSE
  CASE t.k = "id"    -> S
    [] t.k = "const" -> t.s
    [] t.k = "consv" -> FlatSet(t.v, t.w, Eval(t.g, o, S))
    [] t.k = "conss" -> HierSet(t.v, t.w, Eval(t.g, o, S))
    [] t.k = "fun"   -> UNION {MapAt(a, t.path, t.tab) : a \in S}
    [] t.k = "ind"   -> UNION {IndImage(t, o, a) : a \in S}
    [] t.k = "local" -> LET sub == EntryOf(o, t.v)[2]
                            Img(a) == LET i == IndexOf(a, t.v) IN
                                      IF i = 0 \/ IsFlatElt(a[i]) THEN {a}
                                      ELSE {[a EXCEPT ![i] = HierElt(t.v, b)] : b \in Eval(t.g, sub, {a[i][2]})}
                        IN  UNION {Img(a) : a \in S}
    [] t.k = "sum"   -> UNION {Eval(t.l[i], o, S) : i \in 1..Len(t.l)}
    [] t.k = "inter" -> LET R(i) == Eval(t.l[i], o, S)
                        IN  {a \in R(1) : \A i \in 2..Len(t.l) : a \in R(i)}
    [] t.k = "comp"  -> Eval(t.a, o, Eval(t.b, o, S))
    [] t.k = "rw"    -> Eval(t.a, o, S)          \* rewriting preserves the meaning
    [] t.k = "fix"   -> FixIter(t.a, o, S)
    [] t.k = "ite"   -> LET P == Eval(t.p, o, S)
                        IN  Eval(t.t, o, P) \cup Eval(t.f, o, S \ P)
FixIter(t, o, S) == LET n == Eval(t, o, S) IN IF n = S THEN S ELSE FixIter(t, o, n)

(* Terms built by the same constructions from equal parts, up to the order,    *)
(* nesting and repetition of the operands of sums and intersections, have the  *)
(* same key.  Rewritten terms carry their origin.                              *)
RECURSIVE Key(_)
RECURSIVE Ops(_, _)
Ops(kind, t) == IF t.k = kind THEN UNION {Ops(kind, t.l[i]) : i \in 1..Len(t.l)} ELSE {Key(t)}
Key(t) ==
  CASE t.k = "id"    -> <<"id">>
    [] t.k = "const" -> <<"const", t.s>>
    [] t.k = "consv" -> <<"consv", t.c, t.w, Key(t.g)>>
    [] t.k = "conss" -> <<"conss", t.c, t.w, Key(t.g)>>
    [] t.k = "fun"   -> <<"fun", t.path, t.tab, t.fl>>
    [] t.k = "ind"   -> <<"ind", t.kind, t.x, t.y, t.tab>>
    [] t.k = "local" -> <<"local", t.v, Key(t.g)>>
    [] t.k \in {"sum", "inter"} ->
         LET s == Ops(t.k, t) IN IF Cardinality(s) = 1 THEN CHOOSE x \in s : TRUE ELSE <<t.k, s>>
    [] t.k = "comp"  -> <<"comp", Key(t.a), Key(t.b)>>
    [] t.k = "fix"   -> <<"fix", Key(t.a)>>
    [] t.k = "rw"    -> <<"rw", t.o, Key(t.a)>>
    [] t.k = "ite"   -> <<"ite", Key(t.p), Key(t.t), Key(t.f)>>

(* All assignments of an order over the first nv values. *)
RECURSIVE AllAssign(_, _)
AllAssign(o, nv) ==
  IF o = <<>> THEN {<<>>}
  ELSE LET v == Len(o) - 1
           heads == IF o[1][2] = <<>> THEN {FlatElt(v, x) : x \in 0..(nv-1)}
                    ELSE {HierElt(v, b) : b \in AllAssign(o[1][2], nv)}
       IN  {<<h>> \o t : h \in heads, t \in AllAssign(Tail(o), nv)}
=============================================================================
