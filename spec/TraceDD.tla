------------------------------- MODULE TraceDD -------------------------------
(* Checks a log of calls made by drivers/dd.cc against the meaning of diagrams *)
(* and homomorphisms.  State: what every live handle denotes, as tracked by    *)
(* the specification; every event is accepted only if the observed outcome is  *)
(* one the specification allows in that state.  FOCUS selects which conditions *)
(* are enforced (one set per property); the others follow the observation.     *)
EXTENDS HomSem, Json, IOUtils

CONSTANTS FOCUS,      \* conditions to enforce
          DEN,        \* compute the sets denoted by diagrams (small diagrams)
          COUNT       \* compute cardinalities from the structure (any diagram)

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event
          sl,     \* diagram handles: slot -> id of the diagram (content)
          nod,    \* id -> structure
          den,    \* id -> set of assignments
          cnt,    \* id -> number of assignments
          hom,    \* homomorphism handles: slot -> term
          txt,    \* homomorphism handles: slot -> textual form, once seen
          gen,    \* open enumerations of paths: slot -> id of the diagram
          ord,    \* order slots: [t |-> tree, p |-> position of its head]
          res,    \* blocks left allocated after each shutdown
          arm     \* which of the next calls of user code throws (-1: none)
vars == <<l, sl, nod, den, cnt, hom, txt, gen, ord, res, arm>>

On(c) == c \in FOCUS
Chk(c, cond) == IF ~On(c) THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
Has(e, f) == f \in DOMAIN e
Empty == [x \in {} |-> 0]
Upd(f, k, v) == (k :> v) @@ f
Del(f, K) == TLCEval([x \in DOMAIN f \ K |-> f[x]])

Den0 == (0 :> ZeroSet) @@ (1 :> OneSet)
Cnt0 == (0 :> <<>>) @@ (1 :> <<1>>)

Init == /\ l = 1 /\ sl = Empty /\ nod = Empty /\ den = Den0 /\ cnt = Cnt0
        /\ hom = Empty /\ txt = Empty /\ gen = Empty /\ ord = Empty /\ res = <<>> /\ arm = -1

(* ---- new nodes ---- *)
NodesOf(e) == (IF Has(e, "tn") THEN e.tn ELSE <<>>) \o (IF Has(e, "n") THEN e.n ELSE <<>>)
NewNod(ns) == IF ns = <<>> THEN nod ELSE FoldLeft(LAMBDA f, n : (n.i :> n) @@ f, nod, ns)
NewDen(ns) == IF ~DEN \/ ns = <<>> THEN den
              ELSE FoldLeft(LAMBDA f, n : (n.i :> TLCEval(DenNode(n, f))) @@ f, den, ns)
NewCnt(ns) == IF ~COUNT \/ ns = <<>> THEN cnt
              ELSE FoldLeft(LAMBDA f, n : (n.i :> TLCEval(CountNode(n, f))) @@ f, cnt, ns)
Learn(e) == LET ns == NodesOf(e) IN
            /\ nod' = NewNod(ns)
            /\ den' = NewDen(ns)
            /\ cnt' = NewCnt(ns)
            /\ (DEN => Chk("canon", \A i \in 1..Len(ns) : CanonNode(ns[i], den')))
            (* canonical form: a set has one diagram, whatever the route *)
            /\ (DEN => Chk("canon", \A i \in 1..Len(ns) : \A j \in DOMAIN den' : j # ns[i].i => den'[j] # den'[ns[i].i]))

(* ---- relations between the handle in slot d and all live handles ---- *)
RelOK(e, d, sl2) ==
  Has(e, "eq") =>
    /\ Chk("eq", Range(e.eq) = {s \in DOMAIN sl2 : sl2[s] = sl2[d]})
    /\ Chk("eq", \A s \in DOMAIN sl2 : sl2[s] = sl2[d] => s \in Range(e.hq))
    /\ Chk("eq", e.mt = (sl2[d] = 0) /\ e.bl = (sl2[d] # 0))

D(s) == den[sl[s]]

(* Result of a call that puts a diagram in slot d: the expected set is Exp,    *)
(* the condition is c. *)
Result(e, d, c, Exp) ==
  /\ Learn(e)
  /\ sl' = Upd(sl, d, e.r)
  /\ (DEN => Chk(c, den'[e.r] = Exp))
  /\ RelOK(e, d, sl')
  /\ UNCHANGED <<hom, txt, gen, ord, res>>

(* A set operation: exact, or refused when the specification allows it. *)
Refused(e) == e.x = "top"
TopNames(e) == \* the exception names two diagrams that cannot be combined
  DEN => Chk("top", e.tw /\ (LET A == den'[e.t[1]] B == den'[e.t[2]] IN MustRefuse(A, B)))
SetOp(e, d, exact, must, may) ==
  IF Refused(e)
  THEN /\ Learn(e) /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
       /\ Chk("top", may) /\ Chk("set", may)
       /\ TopNames(e)
  ELSE /\ Chk("set", e.x = "") /\ Chk("top", e.x = "" /\ ~must)
       /\ IF e.x = "" THEN Result(e, d, IF may THEN "top" ELSE "set", exact)
          ELSE UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, ord, res>>

(* An exception of the user's code reaches the caller, unchanged, and only then. *)
ThrowOK(e) == Chk("throw", IF e.x = "user" THEN arm >= 0 /\ e.uk = arm ELSE arm < 0 \/ e.ct < arm)

(* ---- homomorphism handles ---- *)
HomKey(t) == TLCEval(Key(t))
Probe(o, t) == \* a linear homomorphism is known by its images of single assignments
  [a \in AllAssign(o, 2) |-> Eval(t, o, {a})]
HRel(e, h, t, hom2) ==
  LET Live == DOMAIN hom2
      Same == {g \in Live : g # h /\ hom2[g].key = hom2[h].key}
      Eq   == Range(e.eq)
  IN  /\ Chk("heq", Same \subseteq Eq /\ h \in Eq)
      /\ Chk("heq", \A g \in Eq : g \in Live /\ g \in Range(e.hq))
      /\ Chk("hsem", \A g \in Eq : (g \in Live /\ g # h /\ hom2[g].key # hom2[h].key) =>
                        \A o \in DOMAIN ord :
                           (hom2[g].w = ord[o].t /\ t.w = ord[o].t) =>
                             Probe(ord[o].t, hom2[g].t) = Probe(ord[o].t, t.t))
      (* a homomorphism reported as a selector maps every assignment to a subset of it *)
      /\ Chk("hsel", e.sel => \A o \in DOMAIN ord : t.w = ord[o].t =>
                        \A a \in AllAssign(ord[o].t, 2) : Eval(t.t, ord[o].t, {a}) \subseteq {a})
(* w: the tree the homomorphism is meant for *)
MkHom(t, w) == [t |-> t, key |-> IF On("heq") \/ On("hsem") THEN HomKey(t) ELSE <<>>, w |-> w]
NewHom(e, t, w) ==
  IF e.x = "" THEN
    /\ LET m == MkHom(t, w) IN
       /\ hom' = Upd(hom, e.h, m)
       /\ txt' = Del(txt, {e.h})
       /\ HRel(e, e.h, m, hom')
    /\ UNCHANGED <<sl, nod, den, cnt, gen, ord, res>>
  ELSE Chk("hnew", FALSE) /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, ord, res>>
MustFail(e, x) ==
  /\ Chk("hnew", e.x = x)
  /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, ord, res>>

T(h) == hom[h].t
RECURSIVE IsSelTerm(_)
IsSelTerm(t) == CASE t.k = "id" -> TRUE
                  [] t.k = "fun" -> t.fl = 2
                  [] t.k = "ind" -> t.kind = 3
                  [] t.k = "local" -> IsSelTerm(t.g)
                  [] t.k \in {"sum", "inter"} -> \A i \in 1..Len(t.l) : IsSelTerm(t.l[i])
                  [] t.k = "comp" -> IsSelTerm(t.a) /\ IsSelTerm(t.b)
                  [] t.k = "fix" -> IsSelTerm(t.a)
                  [] t.k = "rw" -> IsSelTerm(t.a)
                  [] t.k = "ite" -> IsSelTerm(t.t) /\ IsSelTerm(t.f)
                  [] OTHER -> FALSE
RECURSIVE Locals(_, _)
Locals(path, g) == IF path = <<>> THEN g ELSE [k |-> "local", v |-> path[1], g |-> Locals(Tail(path), g)]
Front1(s) == SubSeq(s, 1, Len(s) - 1)

HomEvent(e) ==
  LET Ot == ord[e.o].t IN
  CASE e.e = "hid"    -> NewHom(e, [k |-> "id"], <<>>)
    [] e.e = "hconst" -> NewHom(e, [k |-> "const", s |-> D(e.s)], <<>>)
    [] e.e = "hconsv" -> NewHom(e, [k |-> "consv", v |-> Len(Ot) - 1, c |-> <<Ot, ord[e.o].p>>, w |-> Range(e.w), g |-> T(e.g)], <<>>)
    [] e.e = "hconss" -> NewHom(e, [k |-> "conss", v |-> Len(Ot) - 1, c |-> <<Ot, ord[e.o].p>>, w |-> D(e.s), g |-> T(e.g)], <<>>)
    [] e.e = "hfun"   -> IF PathTo(ord[e.o].w, e.id) = <<>> THEN MustFail(e, "notfound")
                         ELSE NewHom(e, [k |-> "fun", path |-> PathTo(ord[e.o].w, e.id), tab |-> e.tab, fl |-> e.fl], Ot)
    [] e.e = "hind"   -> NewHom(e, [k |-> "ind", kind |-> e.k, x |-> e.vx, y |-> e.vy, tab |-> e.tab], <<>>)
    [] e.e = "hlocal" -> IF PathTo(ord[e.o].w, e.id) = <<>> THEN MustFail(e, "notfound")
                         ELSE NewHom(e, IF T(e.g).k = "id" THEN [k |-> "id"] ELSE [k |-> "local", v |-> Last(PathTo(ord[e.o].w, e.id)), g |-> T(e.g)], Ot)
    [] e.e = "hcarrier" -> IF PathTo(ord[e.o].w, e.id) = <<>> THEN MustFail(e, "notfound")
                           ELSE NewHom(e, Locals(Front1(PathTo(ord[e.o].w, e.id)), T(e.g)), Ot)
    [] e.e = "hsum"   -> IF e.l = <<>> THEN MustFail(e, "invalid") ELSE NewHom(e, [k |-> "sum", l |-> [i \in 1..Len(e.l) |-> T(e.l[i])]], Ot)
    [] e.e = "hinter" -> IF e.l = <<>> THEN MustFail(e, "invalid") ELSE NewHom(e, [k |-> "inter", l |-> [i \in 1..Len(e.l) |-> T(e.l[i])]], Ot)
    [] e.e = "hcomp"  -> NewHom(e, [k |-> "comp", a |-> T(e.a), b |-> T(e.b)], hom[e.a].w)
    [] e.e = "hfix"   -> NewHom(e, [k |-> "fix", a |-> T(e.a)], hom[e.a].w)
    [] e.e = "hite"   -> IF IsSelTerm(T(e.p)) THEN NewHom(e, [k |-> "ite", p |-> T(e.p), t |-> T(e.t), f |-> T(e.f)], hom[e.p].w)
                         ELSE MustFail(e, "invalid")
    [] e.e = "hrw"    -> NewHom(e, [k |-> "rw", o |-> Ot, a |-> T(e.a)], Ot)
    [] e.e \in {"hcopy", "hmove"} ->
         LET mv == e.e = "hmove" /\ e.h # e.a
             hom1 == Upd(hom, e.h, hom[e.a])
         IN  /\ hom' = IF mv THEN Del(hom1, {e.a}) ELSE hom1
             /\ txt' = LET t1 == IF e.a \in DOMAIN txt THEN Upd(txt, e.h, txt[e.a]) ELSE Del(txt, {e.h})
                       IN  IF mv THEN Del(t1, {e.a}) ELSE t1
             /\ HRel(e, e.h, hom[e.a], hom')
             /\ UNCHANGED <<sl, nod, den, cnt, gen, ord, res>>
    [] e.e = "hdel"   -> /\ hom' = Del(hom, {e.h}) /\ txt' = Del(txt, {e.h})
                         /\ UNCHANGED <<sl, nod, den, cnt, gen, ord, res>>

(* ---- all pairs of a table of operands ---- *)
PairsOK(e, dn) ==
  LET K    == 1..e.c
      used == {sl[e.f + i - 1] : i \in K} \cup {e.r[i][j] : i, j \in K}
      pts  == SetToSeq(UNION {dn[x] : x \in used})
      (* the same sets, over the numbers of the points: cheaper to compare *)
      num  == TLCEval([x \in used |-> TLCEval({k \in 1..Len(pts) : pts[k] \in dn[x]})])
  IN  \A i, j \in K : num[e.r[i][j]] = Exact(e.op, num[sl[e.f + i - 1]], num[sl[e.f + j - 1]])

(* ---- all sums, or intersections, of k of a table of operands ---- *)
RECURSIVE Choose_(_, _)
Choose_(n, k) == IF k = 0 THEN 1 ELSE (Choose_(n - 1, k - 1) * n) \div k
SubsetsOK(e, dn) ==
  LET ops(t) == [i \in 1..e.k |-> dn[sl[e.f + t[i]]]]
  IN  /\ Len(e.r) = Choose_(e.c, e.k)
      /\ \A x \in 1..Len(e.r) : dn[e.r[x][e.k + 1]] = ExactN(e.op, ops(e.r[x]))

(* ---- reports ---- *)
FreqOK(e, q, R) ==
  LET F == {i \in R : nod[i].k = 0}   H == {i \in R : nod[i].k = 1}
      A(K) == FoldSet(LAMBDA i, s : s + Len(nod[i].a), 0, K)
      Sizes == {Len(nod[i].a) : i \in R}
      term(i) == IF i \in Reach({sl[e.a]}, nod) THEN 1 ELSE 0
  IN  /\ q.nodes = <<Cardinality(F), Cardinality(H)>>
      /\ q.narcs = <<A(F), A(H)>>
      /\ {<<q.freq[i][1], q.freq[i][2], q.freq[i][3]>> : i \in 1..Len(q.freq)} =
           {<<n, Cardinality({i \in F : Len(nod[i].a) = n}), Cardinality({i \in H : Len(nod[i].a) = n})>> : n \in Sizes}
      /\ Len(q.freq) = Cardinality(Sizes)
      /\ q.bytes = Cardinality(R) * e.sizes[1] + A(F) * e.sizes[2] + A(H) * e.sizes[3] + term(0) * e.sizes[4] + term(1) * e.sizes[5]

(* DOT export: the graph drawn is the diagram. *)
DotOK(e) ==
  LET V == Range(e.dv)  E == Range(e.de)
      names == {v[1] : v \in V}
      R == Reach({sl[e.a]}, nod)
      W(v) == CHOOSE w \in V : w[1] = v
      Out(v) == {x \in E : x[1] = v /\ x[3] = 0}
      Gh(v) == {x[2] : x \in {y \in E : y[1] = v /\ y[3] = 1}}
      GS(g) == {x[2] : x \in {y \in E : y[1] = g /\ y[3] = 3}}
      GV(g) == {x[2] : x \in {y \in E : y[1] = g /\ y[3] = 2}}
      (* a diagram over an order: the structure of a node tells its height *)
      RECURSIVE Shape(_)
      Shape(v) == IF W(v)[2] = 1 THEN <<"t", W(v)[3]>>
                  ELSE <<"n", {<<1, Range(x[4]), Shape(x[2])>> : x \in Out(v)},
                              {<<2, {Shape(y) : y \in GV(g)}, {Shape(y) : y \in GS(g)}>> : g \in Gh(v)}>>
      RECURSIVE Model(_)
      Model(i) == IF i \in {0, 1} THEN <<"t", i>>
                  ELSE LET n == nod[i] IN
                       <<"n", IF n.k = 0 THEN {<<1, ArcVals(n.a[j]), Model(n.a[j][2])>> : j \in 1..Len(n.a)} ELSE {},
                              IF n.k = 1 THEN {<<2, {Model(n.a[j][1])}, {Model(n.a[j][2])}>> : j \in 1..Len(n.a)} ELSE {}>>
      (* a node shared by several places of the order is drawn once, with the identifier of one of them *)
      RECURSIVE Places(_, _)
      Places(i, o) == IF i \in {0, 1} THEN {}
                      ELSE LET n == nod[i] sub == EntryOf(o, n.v) rest == SubSeq(o, Len(o) - n.v + 1, Len(o)) IN
                           {<<Model(i), sub[1]>>} \cup UNION {Places(n.a[j][2], rest) : j \in 1..Len(n.a)}
                             \cup (IF n.k = 1 THEN UNION {Places(n.a[j][1], sub[2]) : j \in 1..Len(n.a)} ELSE {})
      targets == {x[2] : x \in E}
      roots == {v \in names : v \notin targets}
  IN  /\ e.dw
      /\ Cardinality(names) = Len(e.dv)                        \* each node once
      /\ Cardinality(names) = Cardinality(R)                    \* all nodes, terminals included
      /\ Cardinality(roots) = 1
      /\ \A r \in roots : Shape(r) = Model(sl[e.a])
      /\ LET P == Places(sl[e.a], ord[e.o].t) IN
         \A v \in V : v[2] = 0 => <<Shape(v[1]), v[3]>> \in P

(* ---- paths ---- *)
PathsOK(ps, done, S) ==
  LET Cov(i) == Tuples(ps[i]) IN
  IF S = {} \/ S = {<<>>} THEN (done => ps = <<<<>>>>) /\ Len(ps) <= 1 /\ \A i \in 1..Len(ps) : ps[i] = <<>>
  ELSE LET all == FlatAssigns(S)
           cov == [i \in 1..Len(ps) |-> TLCEval(Cov(i))] IN
       /\ \A i \in 1..Len(ps) : cov[i] # {} /\ cov[i] \subseteq all
       /\ \A i, j \in 1..Len(ps) : i < j => cov[i] \cap cov[j] = {}
       /\ done => UNION {cov[i] : i \in 1..Len(ps)} = all

(* ---- blocks of memory still held: nodes reachable from live handles ---- *)
RECURSIVE TermSdds(_)   \* diagrams kept alive by a homomorphism (as sets of assignments)
TermSdds(t) == CASE t.k = "const" -> {t.s}
                 [] t.k = "conss" -> {t.w} \cup TermSdds(t.g)
                 [] t.k = "consv" -> TermSdds(t.g)
                 [] t.k = "local" -> TermSdds(t.g)
                 [] t.k \in {"sum", "inter"} -> UNION {TermSdds(t.l[i]) : i \in 1..Len(t.l)}
                 [] t.k = "comp" -> TermSdds(t.a) \cup TermSdds(t.b)
                 [] t.k \in {"fix", "rw"} -> TermSdds(t.a)
                 [] t.k = "ite" -> TermSdds(t.p) \cup TermSdds(t.t) \cup TermSdds(t.f)
                 [] OTHER -> {}
LiveRoots == LET HS == UNION {TermSdds(hom[h].t) : h \in DOMAIN hom}
             IN  {sl[s] : s \in DOMAIN sl} \cup {gen[g] : g \in DOMAIN gen} \cup {i \in DOMAIN den : DEN /\ den[i] \in HS} \cup {0, 1}

Rest == UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, ord, res>>

Event(e) ==
  CASE e.e = "init" -> /\ sl' = Empty /\ nod' = Empty /\ den' = Den0 /\ cnt' = Cnt0 /\ hom' = Empty /\ txt' = Empty
                       /\ gen' = Empty /\ ord' = Empty /\ res' = res
    [] e.e = "shutdown" ->
         /\ sl' = Empty /\ hom' = Empty /\ txt' = Empty /\ ord' = Empty
         (* the first sessions may allocate what lives as long as the process; nothing may accumulate *)
         /\ Chk("leak", Len(res) >= 2 => e.live <= res[Len(res)])
         /\ res' = Append(res, e.live)
         /\ UNCHANGED <<nod, den, cnt, gen>>
    [] e.e = "zero"    -> Result(e, e.d, "set", ZeroSet)
    [] e.e = "default" -> Result(e, e.d, "set", ZeroSet)
    [] e.e = "one"     -> Result(e, e.d, "set", OneSet)
    [] e.e = "flat"    -> Chk("set", e.x = "") /\ Result(e, e.d, "set", FlatSet(e.v, Range(e.w), D(e.s)))
    [] e.e = "hier"    -> Chk("set", e.x = "") /\ Result(e, e.d, "set", HierSet(e.v, D(e.w), D(e.s)))
    [] e.e = "bin"     -> SetOp(e, e.d, Exact(e.op, D(e.a), D(e.b)), MustRefuse(D(e.a), D(e.b)), MayRefuse(D(e.a), D(e.b)))
    [] e.e = "inplace" -> SetOp(e, e.d, Exact(e.op, D(e.d), D(e.b)), MustRefuse(D(e.d), D(e.b)), MayRefuse(D(e.d), D(e.b)))
    [] e.e = "nary"    -> LET F == [i \in 1..Len(e.l) |-> D(e.l[i])] IN
                          IF e.l = <<>> THEN Chk("set", e.x = "") /\ Result(e, e.d, "set", {})
                          ELSE SetOp(e, e.d, ExactN(e.op, F), MustRefuseN(e.op, F), MayRefuseN(e.op, F))
    [] e.e = "pairs"   -> /\ Learn(e)
                          /\ Chk("eq", e.odd = <<>>)
                          /\ Chk("set", PairsOK(e, den'))
                          /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
    [] e.e = "huge"    -> LET A == {<<i, i>> : i \in 0..(e.n_ - 1)}
                              B == {<<i, i>> : i \in (e.n_ - e.h_)..(e.n_ + e.h_ - 1)}
                          IN  /\ Chk("set", /\ e.r[1] = Cardinality(A) /\ e.r[2] = Cardinality(B) /\ e.r[3] = Cardinality(A \cup B)
                                            /\ e.r[4] = Cardinality(A \cap B) /\ e.r[5] = Cardinality(A \ B) /\ e.r[6] = 1 /\ e.r[7] = Cardinality(B \ A))
                              /\ Chk("handle", e.r[8] = 1 /\ e.r[9] = Cardinality(A) /\ e.r[10] = 1)
                              /\ Chk("count", e.r[1] = Cardinality(A) /\ e.r[3] = Cardinality(A \cup B))
                              /\ Chk("tools", e.r[11] = Cardinality(A) + 1 /\ e.r[12] = 0 /\ e.r[13] = 2 * Cardinality(A) /\ e.r[14] = 0)
                              /\ Chk("paths", e.r[15] = Cardinality(A) /\ e.r[16] = Cardinality(A))
                              /\ Rest
    [] e.e = "subsets" -> /\ Learn(e)
                          /\ Chk("set", SubsetsOK(e, den'))
                          /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
    [] e.e = "copy"    -> /\ Learn(e) /\ sl' = Upd(sl, e.d, sl[e.a]) /\ Chk("handle", e.r = sl[e.a]) /\ RelOK(e, e.d, sl')
                          /\ UNCHANGED <<hom, txt, gen, ord, res>>
    [] e.e = "move"    -> /\ Learn(e)
                          /\ sl' = IF e.d = e.a THEN sl ELSE Del(Upd(sl, e.d, sl[e.a]), {e.a})
                          /\ Chk("handle", e.r = sl[e.a]) /\ RelOK(e, e.d, sl')
                          /\ UNCHANGED <<hom, txt, gen, ord, res>>
    [] e.e = "swap"    -> /\ Learn(e) /\ sl' = TLCEval([sl EXCEPT ![e.d] = sl[e.a], ![e.a] = sl[e.d]])
                          /\ Chk("handle", e.r = sl[e.a]) /\ RelOK(e, e.d, sl')
                          /\ UNCHANGED <<hom, txt, gen, ord, res>>
    [] e.e = "sub"     -> IF e.ok = 0 THEN Learn(e) /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
                          ELSE /\ Learn(e) /\ sl' = Upd(sl, e.d, e.t) /\ Chk("handle", e.r = e.t /\ e.t \in Children(nod[sl[e.a]]))
                               /\ RelOK(e, e.d, sl') /\ UNCHANGED <<hom, txt, gen, ord, res>>
    [] e.e = "del"     -> sl' = Del(sl, {e.d}) /\ UNCHANGED <<nod, den, cnt, hom, txt, gen, ord, res>>
    [] e.e = "audit"   -> /\ Learn(e) /\ UNCHANGED <<sl, hom, gen, ord, res>>
                          /\ Chk("handle", {<<x[1], x[2]>> : x \in Range(e.s)} = {<<s, sl[s]>> : s \in DOMAIN sl})
                          /\ Chk("handle", {x[1] : x \in Range(e.h)} = DOMAIN hom)
                          /\ Chk("handle", \A x \in Range(e.h) : x[1] \in DOMAIN txt => txt[x[1]] = x[2])
                          /\ txt' = TLCEval([h \in {x[1] : x \in Range(e.h)} |-> (CHOOSE x \in Range(e.h) : x[1] = h)[2]])
    [] e.e = "size"    -> Rest /\ Chk("count", (COUNT => e.sz = cnt[sl[e.a]]) /\ (DEN => e.sz = BigNorm(<<Cardinality(D(e.a))>>, 0) \/ (Cardinality(D(e.a)) = 0 /\ e.sz = <<>>)))
    [] e.e = "paths"   -> Rest /\ Chk("paths", PathsOK(e.p, e.done, D(e.a)) /\ (e.lim < 0 => e.done))
    [] e.e = "gopen"   -> gen' = Upd(gen, e.g, sl[e.a]) /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, ord, res>>
    [] e.e = "gnext"   -> Rest
    [] e.e = "gclose"  -> /\ Chk("paths", PathsOK(e.p, e.done, den[gen[e.g]]))
                          /\ gen' = Del(gen, {e.g}) /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, ord, res>>
    [] e.e = "paths2"  -> Rest /\ Chk("paths", PathsOK(e.p, TRUE, D(e.a)) /\ PathsOK(e.q, TRUE, D(e.b)))
    [] e.e = "tools"   -> Rest /\ LET R == Reach({sl[e.a]}, nod) \ {0, 1} IN Chk("tools", FreqOK(e, e.q1, R) /\ FreqOK(e, e.q2, R))
    [] e.e = "dot"     -> Rest /\ Chk("tools", DotOK(e))
    [] e.e = "clearall" -> Rest
    [] e.e = "resetcache" -> Rest
    [] e.e = "stats"   -> Rest
                          (* only used right after the caches were cleared *)
                          /\ Chk("reclaim", /\ e.sdd = Cardinality(Reach(LiveRoots, nod) \cup {0, 1})
                                            /\ e.hc = 0 /\ e.sc = 0 /\ e.ic = 0 /\ e.dc = 0
                                            /\ (DOMAIN hom = {} => e.hom = 1)
                                            /\ (DOMAIN hom = {} /\ e.val >= 0) =>
                                                 e.val = Cardinality({ArcVals(nod[i].a[j]) : <<i, j>> \in
                                                   UNION {{<<i, j>> : j \in 1..Len(nod[i].a)} : i \in {k \in Reach(LiveRoots, nod) \ {0, 1} : nod[k].k = 0}}} \cup {{}}))
    [] e.e = "order"   -> /\ Chk("hnew", e.x = "") /\ ord' = Upd(ord, e.o, [t |-> e.tree, p |-> 0, w |-> e.tree])
                          /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, res>>
    [] e.e = "delorder" -> ord' = Del(ord, {e.o}) /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, res>>
    [] e.e = "nextorder" -> /\ ord' = Upd(ord, e.o, [t |-> Tail(ord[e.p].t), p |-> ord[e.p].p + 1 + Cardinality(IdsOf(ord[e.p].t[1][2])), w |-> ord[e.p].w])
                            /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, res>>
    [] e.e = "nestedorder" -> /\ ord' = Upd(ord, e.o, [t |-> ord[e.p].t[1][2], p |-> ord[e.p].p + 1, w |-> ord[e.p].w])
                              /\ UNCHANGED <<sl, nod, den, cnt, hom, txt, gen, res>>
    [] e.e = "fromorder" ->
         LET RECURSIVE Prod(_)
             vals(x) == Range((CHOOSE p \in Range(e.init) : p[1] = x)[2])
             Prod(o) == IF o = <<>> THEN {<<>>}
                        ELSE IF o[1][2] = <<>> THEN FlatSet(Len(o) - 1, vals(o[1][1]), Prod(Tail(o)))
                        ELSE HierSet(Len(o) - 1, Prod(o[1][2]), Prod(Tail(o)))
             RECURSIVE Leaves(_)
             Leaves(o) == IF o = <<>> THEN {} ELSE (IF o[1][2] = <<>> THEN {o[1][1]} ELSE Leaves(o[1][2])) \cup Leaves(Tail(o))
         IN  /\ Chk("init", Range(e.asked) \subseteq Leaves(ord[e.o].t))
             /\ ThrowOK(e)
             /\ IF e.x = "user" THEN Learn(e) /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
                ELSE /\ Chk("init", e.x = "")
                     /\ Result(e, e.d, "init", Prod(ord[e.o].t))
    [] e.e = "apply" ->
         /\ ThrowOK(e)
         /\ IF e.x = "user"
               THEN (* an exception of the user's code leaves everything as it was *)
                    Learn(e) /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
               ELSE /\ Chk("hom", e.x = "")
                    /\ IF e.x = "" THEN Result(e, e.d, "hom", Eval(T(e.h), ord[e.o].t, D(e.a)))
                       ELSE Rest
    [] e.e = "applyall" ->
         /\ Learn(e)
         /\ Chk("hom", e.x = "")
         /\ Chk("eq", e.odd = <<>>)
         /\ Chk("hom", \A i \in 1..Len(e.r) :
                         LET x == den'[e.r[i][1]]   y == den'[e.r[i][2]]   z == den'[e.r[i][3]]
                         IN  /\ Eval(T(e.h), ord[e.o].t, x) = y
                             /\ Eval(T(e.g), ord[e.o].t, x) = z)
         /\ Chk("hsel", \A i \in 1..Len(e.r) : /\ (e.s1 => den'[e.r[i][2]] \subseteq den'[e.r[i][1]])
                                                /\ (e.s2 => den'[e.r[i][3]] \subseteq den'[e.r[i][1]]))
         /\ UNCHANGED <<sl, hom, txt, gen, ord, res>>
    [] e.e \in {"arm", "disarm"} -> Rest
    [] e.e = "end" -> Rest
    [] OTHER -> HomEvent(e)

Next == /\ l <= Len(Log)
        /\ l' = l + 1
        /\ Event(Log[l])
        /\ arm' = CASE Log[l].e = "arm" -> Log[l].k
                    [] Log[l].e \in {"disarm", "init"} -> -1
                    [] OTHER -> arm
Spec == Init /\ [][Next]_vars
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
==============================================================================
