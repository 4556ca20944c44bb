SPECIFICATION Spec
CONSTANTS
  Th = {t1, t2, t3}
  Max = 3
  Grows = 2
  Old = FALSE
INVARIANTS Alone Bounded OnceEach Counted
PROPERTIES Ends Full
CHECK_DEADLOCK FALSE
