------------------------------- MODULE Algebra -------------------------------
(* The algorithms of the n-ary sum, the n-ary intersection and the difference  *)
(* of diagrams, at one level.  A node is a function from the values of its     *)
(* variable to what follows (a set of tokens, {} for no path); its arcs group  *)
(* the values with the same successor.  The arcs found so far are kept in an   *)
(* unordered map: every order of visit is a behaviour.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS OP,      \* "sum", "inter", "diff"
          NVAL,    \* number of values
          NTOK,    \* number of tokens
          NOPS     \* number of operands
VALS == 0..(NVAL - 1)
TOKS == 0..(NTOK - 1)
Node == {f \in [VALS -> SUBSET TOKS] : \E v \in VALS : f[v] # {}}
ArcsOf(f) == {<<{v \in VALS : f[v] = s}, s>> : s \in {f[v] : v \in VALS} \ {{}}}

VARIABLES ops,     \* operands still to be merged (first one being merged)
          all,     \* the operands
          res,     \* arcs found so far: <<values, set of successors to be summed>>
          todo,    \* arcs of the current operand still to be merged
          cur,     \* arc being merged: <<values left, successor>>, or <<>>
          seen,    \* arcs of res already compared with cur
          save,    \* arcs that are complete for the current operand
          rem,     \* remainders, back into res once cur is finished
          pc, out
vars == <<ops, all, res, todo, cur, seen, save, rem, pc, out>>

Init == /\ all \in [1..NOPS -> Node]
        /\ res = IF OP = "sum" THEN {<<a[1], {a[2]}>> : a \in ArcsOf(all[1])} ELSE ArcsOf(all[1])
        /\ ops = Tail(all)
        /\ todo = {} /\ cur = <<>> /\ seen = {} /\ save = {} /\ rem = {} /\ pc = "op" /\ out = {}

(* ---- sum ---- *)
NextOperand == /\ pc = "op" /\ OP = "sum"
               /\ IF ops = <<>>
                  THEN /\ pc' = "square" /\ UNCHANGED <<ops, todo>>
                  ELSE /\ pc' = "arc" /\ todo' = ArcsOf(Head(ops)) /\ ops' = Tail(ops)
               /\ UNCHANGED <<all, res, cur, seen, save, rem, out>>
NextArc == /\ pc = "arc"
           /\ IF todo = {}
              THEN /\ res' = res \cup save /\ save' = {} /\ pc' = "op"
                   /\ UNCHANGED <<todo, cur, seen>>
              ELSE /\ \E a \in todo : cur' = a /\ todo' = todo \ {a}
                   /\ seen' = {} /\ pc' = "merge"
                   /\ UNCHANGED <<res, save>>
           /\ UNCHANGED <<ops, all, rem, out>>
Merge == /\ pc = "merge"
         /\ IF cur[1] = {} \/ res \subseteq seen
            THEN /\ save' = IF cur[1] = {} THEN save ELSE save \cup {<<cur[1], {cur[2]}>>}
                 /\ res' = res \cup rem /\ rem' = {} /\ pc' = "arc"
                 /\ UNCHANGED <<cur, seen>>
            ELSE \E r \in res \ seen :
                 LET inter == cur[1] \cap r[1] IN
                 IF cur[1] = r[1]
                 THEN /\ save' = save \cup {<<r[1], r[2] \cup {cur[2]}>>}
                      /\ res' = (res \ {r}) \cup rem /\ rem' = {} /\ pc' = "arc"
                      /\ UNCHANGED <<cur, seen>>
                 ELSE IF inter = {}
                 THEN seen' = seen \cup {r} /\ UNCHANGED <<res, cur, save, rem, pc>>
                 ELSE /\ save' = save \cup {<<inter, r[2] \cup {cur[2]}>>}
                      /\ rem' = IF r[1] = inter THEN rem ELSE rem \cup {<<r[1] \ inter, r[2]>>}
                      /\ res' = res \ {r}
                      /\ cur' = <<cur[1] \ inter, cur[2]>>
                      /\ UNCHANGED <<seen, pc>>
         /\ UNCHANGED <<ops, all, todo, out>>

(* ---- square union: one arc per successor ---- *)
Square(arcs) == {<<UNION {a[1] : a \in {b \in arcs : b[2] = s}}, s>> : s \in {a[2] : a \in arcs}}
Finish == /\ pc = "square"
          /\ out' = Square({<<a[1], UNION a[2]>> : a \in res})
          /\ pc' = "done"
          /\ UNCHANGED <<ops, all, res, todo, cur, seen, save, rem>>

(* ---- intersection ---- *)
Inter2(A, B) == Square({<<a[1] \cap b[1], a[2] \cap b[2]>> : <<a, b>> \in {p \in A \X B : p[1][1] \cap p[2][1] # {} /\ p[1][2] \cap p[2][2] # {}}})
Intersect == /\ pc = "op" /\ OP = "inter"
             /\ IF ops = <<>> \/ res = {}
                THEN out' = res /\ pc' = "done" /\ UNCHANGED <<res, ops>>
                ELSE res' = Inter2(res, ArcsOf(Head(ops))) /\ ops' = Tail(ops) /\ UNCHANGED <<out, pc>>
             /\ UNCHANGED <<all, todo, cur, seen, save, rem>>

(* ---- difference ---- *)
Differ == /\ pc = "op" /\ OP = "diff"
          /\ LET A == ArcsOf(all[1])   B == ArcsOf(all[2])
                 every == UNION {b[1] : b \in B}
                 alone == {<<a[1] \ every, a[2]>> : a \in {x \in A : x[1] \ every # {}}}
                 both  == {<<p[1][1] \cap p[2][1], p[1][2] \ p[2][2]>> :
                             p \in {q \in A \X B : q[1][1] \cap q[2][1] # {} /\ q[1][2] \ q[2][2] # {}}}
             IN  out' = Square(alone \cup both)
          /\ pc' = "done"
          /\ UNCHANGED <<ops, all, res, todo, cur, seen, save, rem>>

Next == NextOperand \/ NextArc \/ Merge \/ Finish \/ Intersect \/ Differ
Spec == Init /\ [][Next]_vars

(* ---- what must hold ---- *)
Means(arcs, v) == UNION {a[2] : a \in {b \in arcs : v \in b[1]}}
Wanted(v) == CASE OP = "sum"   -> UNION {all[i][v] : i \in 1..NOPS}
               [] OP = "inter" -> {t \in TOKS : \A i \in 1..NOPS : t \in all[i][v]}
               [] OP = "diff"  -> all[1][v] \ all[2][v]
Right == pc = "done" => \A v \in VALS : Means(out, v) = Wanted(v)
Canonical == pc = "done" =>
  /\ \A a \in out : a[1] # {} /\ a[2] # {}
  /\ \A a, b \in out : a # b => a[1] \cap b[1] = {} /\ a[2] # b[2]
(* At every step of a sum, no value is on two arcs, and none is lost. *)
Partition == OP = "sum" =>
  LET live == res \cup save \cup rem IN
  /\ \A a, b \in live : a # b => a[1] \cap b[1] = {}
  /\ \A a \in live : a[1] # {}
=============================================================================
