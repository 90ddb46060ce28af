----------------------------- MODULE ManagerSem -----------------------------
(* What the diagrams of drivers/manager.cc denote: sets of pairs <<x, y>> over *)
(* 0..NV-1, coded as x * NV + y.                                               *)
EXTENDS Integers, FiniteSets, TLC
NV == 4
Conflict(j, k) == j = k \/ {j, k} = {1, 2}
NoneHeld == [s \in {} |-> {}]
Without(f, s) == [t \in DOMAIN f \ {s} |-> f[t]]
Made(a, b) == {x * NV + b : x \in 0..a}
Combine(X, Y, o) == CASE o = 0 -> X \cup Y [] o = 1 -> X \cap Y [] OTHER -> X \ Y
(* the least set that contains X and is closed under the increments of x and y *)
Closure(X) == {p \in 0..(NV * NV - 1) : \E q \in X : q \div NV <= p \div NV /\ q % NV <= p % NV}
=============================================================================
