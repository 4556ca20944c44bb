SPECIFICATION Spec
CONSTANTS
  w1 = w1
  w2 = w2
  w3 = w3
  w4 = w4
  n1 = n1
  n2 = n2
  n3 = n3
  a = a
  b = b
  Waiters = {w1, w2, w3, w4}
  Notifiers = {n1, n2, n3}
  Addr = {a, b}
  At <- MCAt
  Counts <- MCCounts
  Finite = {w2, w4}
  Setters = {n2}
INVARIANTS Counted Zero AtMost Listed NotLost Differ
PROPERTIES Return Served
CHECK_DEADLOCK FALSE
