------------------------------- MODULE HomAlg -------------------------------
(* How homomorphisms are built, rewritten and evaluated: construction          *)
(* simplifies terms (sums and intersections are flattened, locals on the same  *)
(* variable are grouped, compositions of locals are pushed down), rewriting    *)
(* splits the operands of sums, intersections and fixpoints into what skips    *)
(* the level (F), what works on the nested level (L) and the rest (G), and     *)
(* evaluation goes down level by level, skipping levels.  HomSem says what all *)
(* that must compute.                                                          *)
EXTENDS HomSem

IdT == [k |-> "id"]
Head1(o)  == Len(o) - 1                       \* variable of the head of an order
Nested(o) == o[1][2]

(* ---- construction ---- *)
MkLocal(v, g) == IF g = IdT THEN g ELSE [k |-> "local", v |-> v, g |-> g]

RECURSIVE SelT(_)                              \* declared to return subsets only
SelT(t) ==
  CASE t.k = "id"    -> TRUE
    [] t.k \in {"const", "consv", "conss"} -> FALSE
    [] t.k = "fun"   -> t.fl = 2
    [] t.k = "ind"   -> t.kind = 3
    [] t.k = "local" -> SelT(t.g)
    [] t.k \in {"sum", "inter"} -> \A i \in 1..Len(t.l) : SelT(t.l[i])
    [] t.k = "comp"  -> SelT(t.a) /\ SelT(t.b)
    [] t.k = "fix"   -> SelT(t.a)
    [] t.k = "ite"   -> SelT(t.t) /\ SelT(t.f)
    [] t.k \in {"ssum", "sinter", "sfix"} ->
         /\ (t.F # <<>> => SelT(t.F[1])) /\ (t.L # <<>> => SelT(t.L[1]))
         /\ \A i \in 1..Len(t.G) : SelT(t.G[i])

RECURSIVE Flat(_, _)
Flat(kind, l) == IF l = <<>> THEN <<>>
                    ELSE (IF l[1].k = kind THEN Flat(kind, l[1].l) ELSE <<l[1]>>) \o Flat(kind, Tail(l))
NoDup(l) == FoldLeft(LAMBDA acc, x : IF x \in Range(acc) THEN acc ELSE Append(acc, x), <<>>, l)

RECURSIVE MkNary(_, _)
MkNary(kind, l) ==
  LET fl    == Flat(kind, l)
      Group(t) == t.k = "local" /\ (kind = "inter" => SelT(t.g))
      loc   == SelectSeq(fl, LAMBDA t : Group(t))
      oth   == SelectSeq(fl, LAMBDA t : ~Group(t))
      vs    == SetToSeq({loc[i].v : i \in 1..Len(loc)})
      on(v) == SelectSeq(loc, LAMBDA t : t.v = v)
      ops   == NoDup(oth \o [j \in 1..Len(vs) |->
                  MkLocal(vs[j], MkNary(kind, [i \in 1..Len(on(vs[j])) |-> on(vs[j])[i].g]))])
  IN  IF Len(ops) = 1 THEN ops[1] ELSE [k |-> kind, l |-> ops]
MkSum(l)   == MkNary("sum", l)
MkInter(l) == MkNary("inter", l)

RawComp(a, b) == [k |-> "comp", a |-> a, b |-> b]
RECURSIVE MkComp(_, _)
MkComp(a, b) ==
  CASE a.k = "local" /\ b.k = "local" -> IF a.v = b.v THEN MkLocal(a.v, MkComp(a.g, b.g)) ELSE RawComp(a, b)
    [] a.k = "comp" /\ b.k = "local"  -> RawComp(a.a, MkComp(a.b, b))
    [] a.k = "local" /\ b.k = "comp"  -> RawComp(MkComp(a, b.a), b.b)
    [] a.k = "comp" /\ b.k = "comp"   -> RawComp(a.a, RawComp(MkComp(a.b, b.a), b.b))
    [] OTHER -> IF a = IdT THEN b ELSE IF b = IdT THEN a ELSE RawComp(a, b)

MkFix(a) == IF a.k \in {"id", "fix"} THEN a ELSE [k |-> "fix", a |-> a]

(* ---- levels: which homomorphisms have nothing to do at the head of o ---- *)
RECURSIVE SkipT(_, _)
SkipT(t, o) ==
  CASE t.k = "id"    -> TRUE
    [] t.k \in {"const", "consv", "conss"} -> FALSE
    [] t.k = "fun"   -> t.path[1] # Head1(o)
    [] t.k = "ind"   -> t.kind \in {0, 3, 4} /\ o[1][1] # t.x
    [] t.k = "local" -> t.v # Head1(o)
    [] t.k \in {"sum", "inter"} -> \A i \in 1..Len(t.l) : SkipT(t.l[i], o)
    [] t.k = "comp"  -> SkipT(t.a, o) /\ SkipT(t.b, o)
    [] t.k = "fix"   -> SkipT(t.a, o)
    [] t.k = "ite"   -> SkipT(t.p, o) /\ SkipT(t.t, o) /\ SkipT(t.f, o)
    [] t.k \in {"ssum", "sinter", "sfix"} -> t.v # Head1(o)

(* ---- rewriting ---- *)
RECURSIVE RewriteT(_, _)
RewriteT(o, t) ==
  IF o = <<>> \/ t.k \notin {"sum", "inter", "fix"} \/ (t.k = "fix" /\ t.a.k # "sum") THEN t
  ELSE
  LET l     == IF t.k = "fix" THEN t.a.l ELSE t.l
      hasid == \E i \in 1..Len(l) : l[i] = IdT
      F0    == SelectSeq(l, LAMBDA x : x # IdT /\ SkipT(x, o))
      R     == SelectSeq(l, LAMBDA x : x # IdT /\ ~SkipT(x, o))
      L0    == SelectSeq(R, LAMBDA x : x.k = "local")
      G0    == SelectSeq(R, LAMBDA x : x.k # "local")
      (* an intersection is pushed into the nested level for selectors only *)
      push(x) == t.k = "inter" /\ Len(L0) > 1 => SelT(x.g)
      L     == SelectSeq(L0, LAMBDA x : push(x))
      G     == NoDup(G0 \o SelectSeq(L0, LAMBDA x : ~push(x)))
      F     == F0 \o (IF hasid THEN <<IdT>> ELSE <<>>)
      sub   == [i \in 1..Len(L) |-> L[i].g]
  IN  IF t.k = "fix"
      THEN IF ~hasid THEN t
           ELSE [k |-> "sfix", v |-> Head1(o), G |-> G,
                 F |-> <<IF F0 = <<>> THEN IdT ELSE RewriteT(Tail(o), MkFix(MkSum(F)))>>,
                 L |-> <<IF L = <<>> THEN IdT
                         ELSE MkLocal(Head1(o), RewriteT(Nested(o), MkFix(MkSum(Append(sub, IdT)))))>>]
      ELSE IF F0 = <<>> /\ L = <<>> THEN t
      ELSE [k |-> IF t.k = "sum" THEN "ssum" ELSE "sinter", v |-> Head1(o), G |-> G,
            F |-> IF F = <<>> THEN <<>> ELSE <<RewriteT(Tail(o), MkNary(t.k, F))>>,
            L |-> IF L = <<>> THEN <<>>
                  ELSE <<MkLocal(Head1(o), RewriteT(Nested(o), MkNary(t.k, sub)))>>]

(* ---- from a term as the user writes it ---- *)
RECURSIVE FunT(_, _)
FunT(t, p) == IF Len(p) = 1 THEN [t EXCEPT !.path = p] ELSE MkLocal(p[1], FunT(t, Tail(p)))

RECURSIVE Norm(_)
Norm(t) ==
  CASE t.k = "fun"   -> FunT(t, t.path)
    [] t.k = "local" -> MkLocal(t.v, Norm(t.g))
    [] t.k \in {"sum", "inter"} -> MkNary(t.k, [i \in 1..Len(t.l) |-> Norm(t.l[i])])
    [] t.k = "comp"  -> MkComp(Norm(t.a), Norm(t.b))
    [] t.k = "fix"   -> MkFix(Norm(t.a))
    [] t.k = "ite"   -> [k |-> "ite", p |-> Norm(t.p), t |-> Norm(t.t), f |-> Norm(t.f)]
    [] OTHER -> t

(* ---- evaluation ---- *)
Heads(S)   == {a[1] : a \in S}
Succ(S, h) == {Tail(a) : a \in {b \in S : b[1] = h}}
(* The arcs of the canonical diagram of S. *)
Arcs(S) == LET succ == [h \in Heads(S) |-> Succ(S, h)]
           IN  {<<{h \in Heads(S) : succ[h] = s}, s>> : s \in {succ[h] : h \in Heads(S)}}
Paste(hs, s) == {<<h>> \o t : h \in hs, t \in s}
PairwiseDisjoint(R) == \A p, q \in R : p # q => p \cap q = {}

RECURSIVE EvA(_, _, _)
RECURSIVE FixA(_, _, _)
RECURSIVE SFix(_, _, _)
EvA(t, o, S) ==
  IF S = {} \/ t = IdT THEN S
  ELSE IF o # <<>> /\ SkipT(t, o)
  THEN UNION {Paste(arc[1], EvA(t, Tail(o), arc[2])) : arc \in Arcs(S)}
  ELSE
  CASE t.k = "const" -> t.s
    [] t.k = "fun"   ->
         IF o = <<>> THEN S
         ELSE LET Img(hs) == UNION {{FlatElt(t.path[1], y) : y \in Range(t.tab[h[2] + 1])} : h \in hs}
                  (* selectors and shifters are taken to give a partition *)
                  ok == t.fl \in {2, 3} => \A p, q \in Arcs(S) : p # q => Img(p[1]) \cap Img(q[1]) = {}
              IN  IF Assert(ok, "not a partition") THEN UNION {Paste(Img(arc[1]), arc[2]) : arc \in Arcs(S)} ELSE {}
    [] t.k = "ind"   -> UNION {IndImage(t, o, a) : a \in S}
    [] t.k = "local" ->
         LET Img(hs) == {HierElt(t.v, b) : b \in EvA(t.g, Nested(o), {h[2] : h \in hs})}
             ok == SelT(t.g) => \A p, q \in Arcs(S) : p # q => Img(p[1]) \cap Img(q[1]) = {}
         IN  IF Assert(ok, "not a partition") THEN UNION {Paste(Img(arc[1]), arc[2]) : arc \in Arcs(S)} ELSE {}
    [] t.k = "sum"   -> UNION {EvA(t.l[i], o, S) : i \in 1..Len(t.l)}
    [] t.k = "inter" -> LET R(i) == EvA(t.l[i], o, S) IN {a \in R(1) : \A i \in 2..Len(t.l) : a \in R(i)}
    [] t.k = "comp"  -> EvA(t.a, o, EvA(t.b, o, S))
    [] t.k = "fix"   -> FixA(t.a, o, S)
    [] t.k = "ite"   -> LET P == EvA(t.p, o, S) IN EvA(t.t, o, P) \cup EvA(t.f, o, S \ P)
    [] t.k = "ssum"  -> UNION ({EvA(t.G[i], o, S) : i \in 1..Len(t.G)}
                               \cup {EvA(t.F[i], o, S) : i \in 1..Len(t.F)} \cup {EvA(t.L[i], o, S) : i \in 1..Len(t.L)})
    [] t.k = "sinter" -> LET all == t.F \o t.G \o t.L   R(i) == EvA(all[i], o, S)
                         IN  {a \in R(1) : \A i \in 2..Len(all) : a \in R(i)}
    [] t.k = "sfix"  -> SFix(t, o, S)
FixA(t, o, S) == LET n == EvA(t, o, S) IN IF n = S THEN S ELSE FixA(t, o, n)
SFix(t, o, S) ==
  LET s1 == EvA(t.L[1], o, EvA(t.F[1], o, S))
      n  == FoldLeft(LAMBDA s, g : s \cup EvA(g, o, s), s1, t.G)
  IN  IF n = S THEN S ELSE SFix(t, o, n)

=============================================================================
