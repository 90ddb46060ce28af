------------------------------- MODULE MCCache -------------------------------
EXTENDS Cache
CONSTANT Shape
McOps == 0..3
McSubs == CASE Shape = 1 -> [k \in McOps |-> <<>>]
            [] Shape = 2 -> (0 :> <<>> @@ 1 :> <<0>> @@ 2 :> <<0, 1>> @@ 3 :> <<2, 0>>)
            [] Shape = 3 -> (0 :> <<>> @@ 1 :> <<>> @@ 2 :> <<1, 0, 1>> @@ 3 :> <<2, 1, 2>>)
McFilter == IF Shape = 3 THEN {1} ELSE {}
==============================================================================
