------------------------------- MODULE Values -------------------------------
(* Value sets: slots hold handles on unified (shared, immutable) sorted        *)
(* sequences; modifying a slot makes it refer to another unified sequence.     *)
(* Checked: each slot behaves as a mathematical set of its own, handles are    *)
(* equal exactly when the sets are, and the table holds one sequence per set   *)
(* in use.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions
CONSTANTS Univ, Slots, MaxLen, Type, Lo    \* values are shifted by Lo in the scripts
VARIABLES ref,     \* slot -> table entry (0: the slot is not used)
          tab,     \* entry -> sorted sequence; 1 is the empty one
          abs,     \* slot -> the set it must hold
          hist
vars == <<ref, tab, abs, hist>>
S(x) == ToString(x)
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
Sorted(X) == SetToSortSeq(X, <)
(* the sequence algorithms *)
RECURSIVE Ins(_, _)
Ins(q, x) == IF q = <<>> THEN <<x>> ELSE IF x < q[1] THEN <<x>> \o q ELSE IF x = q[1] THEN q ELSE <<q[1]>> \o Ins(Tail(q), x)
RECURSIVE Merge(_, _, _)                                \* op: which of (left only, both, right only) is kept
Merge(p, q, op) ==
  IF p = <<>> THEN IF op[3] THEN q ELSE <<>>
  ELSE IF q = <<>> THEN IF op[1] THEN p ELSE <<>>
  ELSE IF p[1] < q[1] THEN (IF op[1] THEN <<p[1]>> ELSE <<>>) \o Merge(Tail(p), q, op)
  ELSE IF q[1] < p[1] THEN (IF op[3] THEN <<q[1]>> ELSE <<>>) \o Merge(p, Tail(q), op)
  ELSE (IF op[2] THEN <<p[1]>> ELSE <<>>) \o Merge(Tail(p), Tail(q), op)
SumOp == <<TRUE, TRUE, TRUE>>  IntOp == <<FALSE, TRUE, FALSE>>  DifOp == <<TRUE, FALSE, FALSE>>

Used == {s \in Slots : ref[s] # 0}
Get(s) == tab[ref[s]]
Init == ref = [s \in Slots |-> 0] /\ tab = (1 :> <<>>) /\ abs = [s \in Slots |-> {}] /\ hist = <<>>
(* slot d now refers to the unified version of q; entries nobody refers to go away *)
Unify(q) == IF \E i \in DOMAIN tab : tab[i] = q THEN CHOOSE i \in DOMAIN tab : tab[i] = q
            ELSE CHOOSE i \in 1..(Cardinality(DOMAIN tab) + 1) : i \notin DOMAIN tab
Collect(r, t) == [i \in {1} \cup {r[s] : s \in {x \in Slots : r[x] # 0}} |-> t[i]]
Put(d, q, A) == LET i == Unify(q) r == [ref EXCEPT ![d] = i] IN
  ref' = r /\ tab' = Collect(r, (i :> q) @@ tab) /\ abs' = [abs EXCEPT ![d] = A]
H(c) == hist' = Append(hist, c)
V(x) == S(x + Lo)
Cmd(c, xs) == FoldLeft(LAMBDA a, x : a \o " " \o x, c, xs)
New(d, l, how) == /\ Put(d, FoldLeft(LAMBDA q, x : Ins(q, x), <<>>, l), Range(l))
                  /\ H(Cmd("vnew " \o S(d) \o " " \o S(how) \o " " \o S(Len(l)), [i \in 1..Len(l) |-> V(l[i])]))
Insert(d, x) == Put(d, Ins(Get(d), x), abs[d] \cup {x}) /\ H("vins " \o S(d) \o " " \o V(x))
Erase(d, x) == /\ Type = "flat" /\ Put(d, SelectSeq(Get(d), LAMBDA y : y # x), abs[d] \ {x}) /\ H("vera " \o S(d) \o " " \o V(x))
Copy(d, a) == Put(d, Get(a), abs[a]) /\ H("vcopy " \o S(d) \o " " \o S(a))
Bin(d, a, b) ==
  LET c(o) == o \o " " \o S(d) \o " " \o S(a) \o " " \o S(b) IN
  \/ Put(d, Merge(Get(a), Get(b), SumOp), abs[a] \cup abs[b]) /\ H(c("vsum"))
  \/ Put(d, Merge(Get(a), Get(b), IntOp), abs[a] \cap abs[b]) /\ H(c("vint"))
  \/ Put(d, Merge(Get(a), Get(b), DifOp), abs[a] \ abs[b]) /\ H(c("vdif"))
Lists == UNION {[1..n -> Univ] : n \in 0..2}
Next == \/ \E d \in Slots, l \in Lists, how \in 0..2 : New(d, l, how)
        \/ \E d \in Used, x \in Univ : Insert(d, x) \/ Erase(d, x)
        \/ \E d \in Slots, a \in Used : Copy(d, a)
        \/ \E d \in Slots, a, b \in Used : Bin(d, a, b)
Spec == Init /\ [][Next]_vars

AsSets   == \A s \in Used : Range(Get(s)) = abs[s] /\ Get(s) = Sorted(abs[s])
Unified  == \A s, t \in Used : ref[s] = ref[t] <=> abs[s] = abs[t]
Distinct == \A i, j \in DOMAIN tab : tab[i] = tab[j] => i = j
Collected == Cardinality(DOMAIN tab) = Cardinality({<<>>} \cup {Get(s) : s \in Used})
View == [s \in Slots |-> IF s \in Used THEN Get(s) ELSE <<-1>>]
Short == Len(hist) < MaxLen
Emit == PrintT(FoldLeft(LAMBDA a, x : a \o ";" \o x, "SCRIPT", hist') \o ";vcmp"
               \o (IF ref'[1] # 0 THEN ";vobs 1" ELSE "") \o ";stop")
=============================================================================
