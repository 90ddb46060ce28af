---------------------------- MODULE TraceValues ----------------------------
(* Validates a log of drivers/values.cc.  Values are indices into an           *)
(* increasing table of values of the type (numbers for bitsets).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions, Json, IOUtils
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ty, s
vars == <<l, ty, s>>
Chk(c, cond) == IF c \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
None == [i \in {} |-> 0]
Init == l = 1 /\ ty = [n |-> 0] /\ s = None
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
Sorted(X) == SetToSortSeq(X, <)
(* text: {}, {1,3}, integral flat sets show runs of consecutive values as a..b *)
Text(X) ==
  LET q == Sorted(X) n == Len(q) T(i) == ty.tab[q[i] + 1]
      Joined(i) == ty.range /\ i < n /\ q[i + 1] = q[i] + 1 /\ ty.cons[q[i] + 1] = 1      \* element i and i+1 in the same run
      RECURSIVE Go(_, _)
      Go(i, first) == IF i > n THEN "" ELSE IF Joined(i) THEN Go(i + 1, first)
                      ELSE (IF first = i THEN T(i) ELSE T(first) \o ".." \o T(i)) \o (IF i < n THEN "," ELSE "") \o Go(i + 1, i + 1)
  IN "{" \o Go(1, 1) \o "}"
After(e, f) ==
  /\ s' = TLCEval(f) /\ ty' = ty
  /\ Chk("set", {<<x[1], x[2]>> : x \in Range(e.all)} = {<<i, Sorted(f[i])>> : i \in DOMAIN f})
  /\ Chk("size", \A x \in Range(e.all) : x[3] = Cardinality(f[x[1]]))
  /\ Chk("x", "x" \notin DOMAIN e)
Event(e) ==
  CASE e.e = "start" -> ty' = e /\ s' = None
    [] e.e = "stop" -> UNCHANGED <<ty, s>>
    [] e.e = "vnew" -> After(e, (e.d :> Range(e.l)) @@ s)
    [] e.e = "vins" -> /\ After(e, (e.d :> (s[e.d] \cup {e.i})) @@ s)
                       /\ ty.flat => Chk("insert", e.new = (e.i \notin s[e.d]) /\ e.it = e.i /\ e.at = Cardinality({x \in s[e.d] : x < e.i}))
    [] e.e = "vera" -> /\ After(e, (e.d :> (s[e.d] \ {e.i})) @@ s)
                       /\ Chk("erase", e.n = IF e.i \in s[e.d] THEN 1 ELSE 0)
    [] e.e = "vcopy" -> After(e, (e.d :> s[e.a]) @@ s)
    [] e.e = "vdel" -> After(e, Drop(s, {e.d}))
    [] e.e = "vswap" -> After(e, (e.d :> s[e.a]) @@ (e.a :> s[e.d]) @@ s)
    [] e.e = "vsum" -> After(e, (e.d :> (s[e.a] \cup s[e.b])) @@ s)
    [] e.e = "vint" -> After(e, (e.d :> (s[e.a] \cap s[e.b])) @@ s)
    [] e.e = "vdif" -> After(e, (e.d :> (s[e.a] \ s[e.b])) @@ s)
    [] e.e = "vshl" -> After(e, (e.d :> {x + e.k : x \in {y \in s[e.a] : y + e.k < ty.n}}) @@ s)
    [] e.e = "vshr" -> After(e, (e.d :> {x - e.k : x \in {y \in s[e.a] : y >= e.k}}) @@ s)
    [] e.e = "vcmp" ->
         LET eq == {<<x[1], x[2]>> : x \in Range(e.eq)} lt == {<<x[1], x[2]>> : x \in Range(e.lt)} D == DOMAIN s IN
         /\ Chk("eq", "x" \notin DOMAIN e /\ eq = {p \in D \X D : s[p[1]] = s[p[2]]})
         /\ Chk("lt", /\ \A p \in D \X D : (p \in eq) = (p \notin lt /\ <<p[2], p[1]>> \notin lt)
                      /\ \A p \in lt : <<p[2], p[1]>> \notin lt
                      /\ \A p \in lt, z \in D : <<p[2], z>> \in lt => <<p[1], z>> \in lt)
         /\ UNCHANGED <<ty, s>>
    [] e.e = "vobs" ->
         LET X == s[e.d] q == Sorted(X) IN
         /\ Chk("size", e.size = Len(q) /\ e.size2 = Len(q) /\ e.empty = (X = {}) /\ e.empty2 = (X = {}))
         /\ Chk("iter", e.fwd = q /\ (ty.flat => e.cfwd = q /\ e.rev = Reverse(q) /\ e.crev = Reverse(q)))
         /\ ty.flat => Chk("find", /\ Range(e.cnt) = X /\ Range(e.fnd) = X
                                   /\ \A i \in 1..ty.n : /\ e.lo[i] = Cardinality({x \in X : x < i - 1})
                                                         /\ e.up[i] = Cardinality({x \in X : x <= i - 1}))
         /\ Chk("text", e.text = Text(X))
         /\ UNCHANGED <<ty, s>>
    [] e.e = "vstat" ->                                    \* one element per distinct set alive, and the empty set
         Chk("unified", e.size = Cardinality({{}} \cup Range(s))) /\ UNCHANGED <<ty, s>>
    [] OTHER -> e.e = "end" /\ UNCHANGED <<ty, s>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
