----------------------------- MODULE TraceArena -----------------------------
(* Validates a log of drivers/mem.cc on the scratch allocator.  The position   *)
(* after a release may be anything between the end of the live blocks and the  *)
(* position before; everything else is determined.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Json, IOUtils
CONSTANT FOCUS
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, n, pos, scopes, blocks
vars == <<l, n, pos, scopes, blocks>>
Chk(c, cond) == IF c \notin FOCUS THEN TRUE ELSE IF cond THEN TRUE ELSE PrintT(<<"REJECTED", l, c>>) /\ FALSE
None == [i \in {} |-> 0]
Init == l = 1 /\ n = 0 /\ pos = 0 /\ scopes = <<>> /\ blocks = None
Drop(f, D) == [i \in DOMAIN f \ D |-> f[i]]
Ends(bs) == Max({0} \cup {bs[i].off + bs[i].n : i \in {j \in DOMAIN bs : bs[j].off # -1 /\ bs[j].n > 0}})
Heap(bs) == Cardinality({i \in DOMAIN bs : bs[i].off = -1})
Same(e, bs) == Chk("intact", e.bad = <<>>) /\ Chk("heap", e.heap = Heap(bs)) /\ pos' = e.pos
Event(e) ==
  CASE e.e = "anew" -> n' = e.n /\ scopes' = <<>> /\ blocks' = None /\ Same(e, None) /\ Chk("scope", e.pos = 0)
    [] e.e = "aalloc" ->
         LET b == [off |-> e.off, n |-> e.n] IN
         /\ blocks' = TLCEval((e.id :> b) @@ blocks) /\ UNCHANGED <<n, scopes>> /\ Same(e, blocks')
         /\ Chk("disjoint", /\ e.over = <<>>
                            /\ e.off # -1 => \A i \in DOMAIN blocks : blocks[i].off = -1 \/ blocks[i].n = 0 \/ e.n = 0
                                               \/ blocks[i].off + blocks[i].n <= e.off \/ e.off + e.n <= blocks[i].off)
         /\ Chk("fits", e.off # -1 <=> pos + e.n <= n)
         /\ Chk("room", IF e.off = -1 THEN e.pos = pos ELSE e.pos = e.off + e.n /\ e.off = pos)
    [] e.e = "afree" ->
         /\ blocks' = TLCEval(Drop(blocks, {e.id})) /\ UNCHANGED <<n, scopes>> /\ Same(e, blocks')
         /\ Chk("room", e.pos <= pos /\ e.pos >= Ends(blocks'))
    [] e.e = "abegin" -> scopes' = Append(scopes, pos) /\ UNCHANGED <<n, blocks>> /\ Same(e, blocks) /\ Chk("room", e.pos = pos)
    [] e.e = "aend" ->
         /\ blocks' = TLCEval(Drop(blocks, Range(e.ids))) /\ scopes' = Front(scopes) /\ UNCHANGED n /\ Same(e, blocks')
         /\ Chk("scope", e.pos = Last(scopes))
    [] e.e = "adel" -> Chk("heap", e.heap = 0) /\ UNCHANGED <<n, pos, scopes, blocks>>
    [] OTHER -> e.e \in {"start", "end"} /\ UNCHANGED <<n, pos, scopes, blocks>>
Next == l <= Len(Log) /\ l' = l + 1 /\ Event(Log[l])
View == l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Log) THEN PrintT(<<"ACCEPTED", Len(Log)>>)
            ELSE PrintT(<<"STOPPED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
