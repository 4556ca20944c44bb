------------------------------ MODULE MemCtxMC ------------------------------
(* Exhaustive exploration of MemCtx within small bounds. *)
EXTENDS MemCtx
CONSTANTS Sizes, Limits, Slots
VARIABLE M
Init == \E l1, l2, l3, l4 \in Limits : M = Fresh(<<0, 1, 1, 2>>, <<l1, l2, l3, l4>>, Slots)
Next == \/ \E c \in DOMAIN M.al, i \in 1..Slots, d \in Sizes :
              M.slot[i][2] = 0 /\ M' = Alloc(M, c, i, d)[1]
        \/ \E i \in 1..Slots, d \in Sizes :
              M.slot[i][2] > 0 /\ M' = (IF d > M.slot[i][2] THEN Extend(M, i, d)
                                        ELSE IF d < M.slot[i][2] THEN Shrink(M, i, d)
                                        ELSE Free(M, i))[1]
        \/ \E c \in DOMAIN M.al, l \in Limits : M' = SetLimit(M, c, l)[1]
Spec == Init /\ [][Next]_M
IsExact == Exact(M)
IsLimited == Limited(M)
=============================================================================
