------------------------------- MODULE Orders -------------------------------
(* Builders as a state machine (push, nest, list, concatenate), with the       *)
(* properties of the orders and of the grouping strategy checked on every      *)
(* builder that can be made.  The grouping algorithm is modelled as written:   *)
(* packets are filled from the end, until the level is narrow enough.          *)
EXTENDS OrderSem
CONSTANTS IdSet, Slots, MaxNodes, MaxLen
VARIABLES b, hist            \* b: slot -> builder (a sequence)
vars == <<b, hist>>
S(x) == ToString(x)
Init == b = [s \in Slots |-> <<>>] /\ hist = <<>>
Set(d, q, c) == Len(Ids(q)) <= MaxNodes /\ b' = [b EXCEPT ![d] = q] /\ hist' = Append(hist, c)
Push(d, i) == Set(d, <<<<i, <<>>>>>> \o b[d], "bpush " \o S(d) \o " " \o S(i))
PushN(d, i, a) == Set(d, <<<<i, b[a]>>>> \o b[d], "bpushn " \o S(d) \o " " \o S(i) \o " " \o S(a))
Nest(d, i, a) == Set(d, <<<<i, b[a]>>>>, "bnest " \o S(d) \o " 0 " \o S(i) \o " " \o S(a))
Cat(d, a) == Set(d, b[d] \o b[a], "bcat " \o S(d) \o " " \o S(d) \o " " \o S(a))
Reset(d) == b[d] # <<>> /\ Set(d, <<>>, "bnew " \o S(d))
Next == \E d \in Slots : \/ \E i \in IdSet : Push(d, i) \/ \E a \in Slots : PushN(d, i, a) \/ Nest(d, i, a)
                         \/ \E a \in Slots : Cat(d, a)
                         \/ Reset(d)
Spec == Init /\ [][Next]_vars

(* grouping as the code does it; artificial identifiers are counted from k *)
RECURSIVE Packets(_, _)
Packets(q, n) == IF q = <<>> THEN <<<<>>>>
                 ELSE LET ps == Packets(Tail(q), n) IN
                      IF Len(ps[1]) = n THEN <<<<q[1]>>>> \o ps ELSE <<<<q[1]>> \o ps[1]>> \o Tail(ps)
RECURSIVE GroupLoop(_, _, _)
GroupLoop(q, n, k) == IF Len(q) <= n THEN q
                      ELSE LET ps == Packets(q, n) IN GroupLoop([i \in 1..Len(ps) |-> <<0 - (k + i), ps[i]>>], n, k + Len(ps))
Group(q, n) == IF q = <<>> \/ n = 1 THEN q ELSE GroupLoop(q, n, 0)
RECURSIVE Flatten(_)
Flatten(q) == IF q = <<>> THEN q
              ELSE IF q[1][2] = <<>> THEN <<<<q[1][1], <<>>>>>> \o Flatten(Tail(q)) ELSE Flatten(q[1][2]) \o Flatten(Tail(q))

Grouping == \A s \in Slots, n \in 1..4 : GroupedOK(b[s], n, Group(b[s], n), {})
Flattening == \A s \in Slots : Flatten(b[s]) = [i \in 1..Len(Leaves(b[s])) |-> <<Leaves(b[s])[i], <<>>>>]
Positions == \A s \in Slots : LET ns == AllNodes(OrderOf(b[s])) IN
  /\ [i \in 1..Len(ns) |-> ns[i].pos] = [i \in 1..Len(ns) |-> i - 1]
  /\ [i \in 1..Len(ns) |-> ns[i].id] = Ids(b[s])
  /\ \A i, j \in 1..Len(ns) : <<ns[i].pos, ns[j].pos>> \in Containment(ns) =>
        i < j /\ Len(ns[i].path) < Len(ns[j].path)
  /\ \A i \in 1..Len(ns) : ns[i].next # -1 => ns[ns[i].next + 1].var = ns[i].var - 1 /\ ns[ns[i].next + 1].path = ns[i].path
  /\ \A i \in 1..Len(ns) : ns[i].next = -1 => ns[i].var = 0
FlatAgree == \A s \in Slots : FlatA(OrderOf(b[s])) = Leaves(b[s])
(* a dumped and loaded order: same leaves in the same order, nothing to merge any more, and a second time changes nothing *)
Reload == \A s \in Slots : LET q == b[s] r == Loaded(Dumped(q)) IN
  /\ Leaves(r) = Leaves(q) /\ NoSingle(r) /\ Loaded(Dumped(r)) = r
  /\ (NoSingle(q) /\ ~(Len(q) = 1 /\ q[1][2] # <<>>)) => Dumped(r) = Dumped(q)
Short == Len(hist) < MaxLen
View == b
Head0 == FoldLeft(LAMBDA a, s : a \o ";bnew " \o S(s), "SCRIPT;start", SetToSeq(Slots))
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, Head0, hist')
   \o FoldLeft(LAMBDA a, s : a \o ";bobs " \o S(s) \o ";onew " \o S(s) \o " " \o S(s)
        \o (IF Duplicates(b'[s]) # {} THEN "" ELSE ";oobs " \o S(s) \o ";ocont " \o S(s) \o " " \o S(Len(Ids(b'[s])))
             \o FoldLeft(LAMBDA z, i : z \o ";onode " \o S(s) \o " " \o S(i), "", SetToSeq(IdSet))), "", SetToSeq(Slots)) \o ";ocmp"
   \o ";sflat 8 1;sgroup 9 2 1;sgroup 9 3 1")
=============================================================================
