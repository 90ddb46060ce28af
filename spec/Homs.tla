-------------------------------- MODULE Homs --------------------------------
(* Homomorphisms under construction.  A state is a homomorphism over one of    *)
(* the levels of a small order, built step by step from elementary ones; the   *)
(* invariants compare, on every set of assignments over two values, what the   *)
(* library computes (HomAlg) with what the term means (HomSem).  Every state   *)
(* also is a script for drivers/dd.cc.                                         *)
EXTENDS HomAlg, FiniteSetsExt

CONSTANTS CASE_,      \* which order
          DEPTH,      \* how many constructions
          SIM,        \* TRUE: long simulated behaviours
          RICH        \* TRUE: all elementary homomorphisms

VARIABLES lev,        \* level the term works on
          cur,        \* the term
          lin,        \* works on unions
          n,          \* its slot in the script
          d,          \* number of constructions
          hist
vars == <<lev, cur, lin, n, d, hist>>
View == <<lev, cur, lin, d>>

L(o, up, id) == [o |-> o, up |-> up, id |-> id]
X(i) == <<i, <<>>>>
Levels == CASE CASE_ = 1 -> <<L(<<X(0), X(1)>>, 0, 0)>>
            [] CASE_ = 2 -> <<L(<<<<0, <<X(1)>>>>, X(2)>>, 0, 0), L(<<X(1)>>, 1, 0)>>
            [] CASE_ = 3 -> <<L(<<X(0), <<1, <<X(2)>>>>>>, 0, 0), L(<<X(2)>>, 1, 1)>>
            [] CASE_ = 4 -> <<L(<<<<0, <<X(1), X(2)>>>>>>, 0, 0), L(<<X(1), X(2)>>, 1, 0)>>
            [] CASE_ = 5 -> <<L(<<<<0, <<X(1)>>>>, <<2, <<X(3)>>>>>>, 0, 0), L(<<X(1)>>, 1, 0), L(<<X(3)>>, 1, 2)>>
            [] CASE_ = 6 -> <<L(<<<<0, <<<<1, <<X(2)>>>>>>>>, X(3)>>, 0, 0), L(<<<<1, <<X(2)>>>>>>, 1, 0), L(<<X(2)>>, 2, 1)>>
            [] CASE_ = 7 -> <<L(<<X(0), X(1), X(2)>>, 0, 0)>>
            [] CASE_ = 8 -> <<L(<<<<0, <<X(1), X(2)>>>>, X(3)>>, 0, 0), L(<<X(1), X(2)>>, 1, 0)>>
            [] CASE_ = 9 -> <<L(<<X(0), <<1, <<X(2), X(3)>>>>>>, 0, 0), L(<<X(2), X(3)>>, 1, 1)>>
O(i) == Levels[i].o

RECURSIVE LeafIds(_)
LeafIds(o) == IF o = <<>> THEN {} ELSE (IF o[1][2] = <<>> THEN {o[1][1]} ELSE LeafIds(o[1][2])) \cup LeafIds(Tail(o))
FlatIds(o) == {o[i][1] : i \in {j \in 1..Len(o) : o[j][2] = <<>>}}

RECURSIVE TreeText(_)
RECURSIVE Entries(_)
Entries(o) == IF o = <<>> THEN "" ELSE " " \o ToString(o[1][1]) \o " " \o TreeText(o[1][2]) \o Entries(Tail(o))
TreeText(o) == ToString(Len(o)) \o Entries(o)

(* ---- elementary homomorphisms ---- *)
Tb(z, u) == <<z, u, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>>>
ListText(s) == FoldLeft(LAMBDA acc, x : acc \o " " \o ToString(x), ToString(Len(s)), s)
TabText(t) == FoldLeft(LAMBDA acc, x : acc \o " " \o ListText(x), "", t)
Keep0 == Tb(<<0>>, <<>>)   Keep1 == Tb(<<>>, <<1>>)   Swap == Tb(<<1>>, <<0>>)
To0 == Tb(<<0>>, <<0>>)    To1 == Tb(<<1>>, <<1>>)    Split == Tb(<<0, 1>>, <<>>)   Inc == Tb(<<0, 1>>, <<1>>)
FunTabs == IF RICH THEN {<<2, Keep0>>, <<2, Keep1>>, <<3, Swap>>, <<1, To0>>, <<0, To1>>, <<1, Split>>, <<0, Inc>>}
           ELSE {<<2, Keep0>>, <<3, Swap>>, <<1, To0>>, <<0, Split>>}
Lf(t, c) == [t |-> t, c |-> c]               \* term, and command with the slot left out
Funs(i) == {Lf([k |-> "fun", path |-> PathTo(O(i), x), tab |-> ft[2], fl |-> ft[1]],
               <<"hfun ", " " \o ToString(i - 1) \o " " \o ToString(x) \o " " \o ToString(ft[1]) \o TabText(ft[2])>>) :
              x \in LeafIds(O(i)), ft \in FunTabs}
IndKinds == IF RICH THEN {<<0, Split>>, <<1, To0>>, <<2, Swap>>, <<3, Keep1>>, <<4, Swap>>} ELSE {<<1, To1>>, <<3, Keep1>>, <<4, Swap>>}
Inds(i) == UNION {{Lf([k |-> "ind", kind |-> kt[1], x |-> x, y |-> y, tab |-> kt[2]],
                <<"hind ", " " \o ToString(kt[1]) \o " " \o ToString(x) \o " " \o ToString(y) \o TabText(kt[2])>>) :
               y \in IF kt[1] = 4 THEN FlatIds(O(i)) \ {x} ELSE {x}} :
              x \in FlatIds(O(i)), kt \in IndKinds}
RECURSIVE Zeros(_)
Zeros(o) == IF o = <<>> THEN <<>> ELSE <<IF o[1][2] = <<>> THEN FlatElt(Len(o) - 1, 0) ELSE HierElt(Len(o) - 1, Zeros(o[1][2]))>> \o Zeros(Tail(o))
ZeroText(i) == LET ids == SetToSeq(LeafIds(O(i))) IN
               FoldLeft(LAMBDA acc, x : acc \o " " \o ToString(x) \o " 1 0", ToString(Len(ids)), ids)
Cst(i) == {Lf([k |-> "const", s |-> {Zeros(O(i))}],
              <<"fromorder 0 " \o ToString(i - 1) \o " " \o ZeroText(i) \o ";hconst ", " 0">>)}
IdL == Lf(IdT, <<"hid ", "">>)
Leaves(i) == Funs(i) \cup Inds(i) \cup Cst(i) \cup {IdL}
Sels(i) == {f \in Leaves(i) : SelT(f.t)}

(* In simulated behaviours, one elementary homomorphism at random per step. *)
Pick(i) == IF SIM THEN {RandomElement(Leaves(i))} ELSE Leaves(i)

Cmd(f, h) == f.c[1] \o ToString(h) \o f.c[2]
OrderCmds == FoldLeft(LAMBDA acc, i : acc \o ";order " \o ToString(i - 1) \o " " \o TreeText(O(i)), "", [i \in 1..Len(Levels) |-> i])

Init == /\ lev \in 1..Len(Levels)
        /\ \E f \in Leaves(lev) : cur = f.t /\ hist = <<Cmd(f, 0)>>
        /\ lin = TRUE /\ n = 0 /\ d = 0

S(h) == ToString(h)
With(f, t, l, cmd) == /\ cur' = t /\ lin' = l /\ n' = n + 2 /\ d' = d + 1 /\ lev' = lev
                      /\ hist' = hist \o <<Cmd(f, n + 1), cmd>>
Oi == ToString(lev - 1)
Next ==
  /\ d < DEPTH
  /\ \/ \E f \in Pick(lev) :
          \/ With(f, [k |-> "sum", l |-> <<cur, f.t>>], lin, "hsum " \o S(n+2) \o " " \o Oi \o " 2 " \o S(n) \o " " \o S(n+1))
          \/ With(f, [k |-> "inter", l |-> <<cur, f.t>>], lin /\ SelT(cur) /\ SelT(f.t), "hinter " \o S(n+2) \o " " \o Oi \o " 2 " \o S(n) \o " " \o S(n+1))
          \/ With(f, [k |-> "comp", a |-> cur, b |-> f.t], lin, "hcomp " \o S(n+2) \o " " \o S(n) \o " " \o S(n+1))
          \/ With(f, [k |-> "comp", a |-> f.t, b |-> cur], lin, "hcomp " \o S(n+2) \o " " \o S(n+1) \o " " \o S(n))
          \/ SelT(f.t) /\ With(f, [k |-> "ite", p |-> f.t, t |-> cur, f |-> IdT], lin,
                               "hid 390;hite " \o S(n+2) \o " " \o S(n+1) \o " " \o S(n) \o " 390")
          \/ SelT(f.t) /\ With(f, [k |-> "ite", p |-> f.t, t |-> f.t, f |-> cur], lin,
                               "hite " \o S(n+2) \o " " \o S(n+1) \o " " \o S(n+1) \o " " \o S(n))
          \/ SelT(cur) /\ lin /\ With(f, [k |-> "ite", p |-> cur, t |-> f.t, f |-> IdT], TRUE,
                               "hid 390;hite " \o S(n+2) \o " " \o S(n) \o " " \o S(n+1) \o " 390")
     \/ /\ lin
        /\ With(IdL, [k |-> "fix", a |-> [k |-> "sum", l |-> <<cur, IdT>>]], TRUE,
                "hsum 391 " \o Oi \o " 2 " \o S(n) \o " " \o S(n+1) \o ";hfix " \o S(n+2) \o " 391")
     \/ /\ lin /\ Levels[lev].up # 0
        /\ LET u == Levels[lev].up
               v == PathTo(O(u), Levels[lev].id)[1]
           IN  /\ lev' = u /\ cur' = [k |-> "local", v |-> v, g |-> cur] /\ n' = n + 1 /\ d' = d + 1 /\ lin' = TRUE
               /\ hist' = Append(hist, "hlocal " \o S(n+1) \o " " \o S(u - 1) \o " " \o S(Levels[lev].id) \o " " \o S(n))
Spec == Init /\ [][Next]_vars

(* ---- what the library computes is what the term means ---- *)
Tests(o) == LET A == AllAssign(o, 2) IN
            IF Cardinality(A) <= 4 THEN SUBSET A ELSE {A} \cup {{}} \cup kSubset(1, A) \cup kSubset(2, A) \cup {A \ {a} : a \in A}
Sound == LET o == O(lev)   t == Norm(cur)   r == RewriteT(o, t) IN
         \A A \in Tests(o) :
            LET E == Eval(cur, o, A) IN
            /\ EvA(t, o, A) = E
            /\ EvA(r, o, A) = E
            /\ (SelT(t) => E \subseteq A)
            /\ (SelT(r) => E \subseteq A)
(* Simplification only forgets structure, never adds selectors out of nothing. *)
Linear == lin => \A A \in Tests(O(lev)) : Eval(cur, O(lev), A) = UNION {Eval(cur, O(lev), {a}) : a \in A}

Script(h, m, l) == "SCRIPT" \o OrderCmds \o ";" \o FoldLeft(LAMBDA acc, x : acc \o x \o ";", "", h)
                   \o "hrw 392 " \o ToString(l - 1) \o " " \o S(m) \o ";applyall " \o S(m) \o " 392 " \o ToString(l - 1) \o " 2"
Emit == PrintT(Script(hist', n', lev'))              \* every transition
EmitLast == d = DEPTH => PrintT(Script(hist, n, lev)) \* the end of a simulated behaviour
=============================================================================
