SPECIFICATION Spec
CONSTANTS Ks = {0, 1, 2, 3}
          NTid = 2
INVARIANT TidsDistinct
INVARIANT TidsPositive
INVARIANT Counts
INVARIANT Faithful
PROPERTY Refines
PROPERTY Ends
CHECK_DEADLOCK FALSE
