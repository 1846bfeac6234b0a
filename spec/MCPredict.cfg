CONSTANTS
  Procs = {1, 2}
  Limit = 5
  MaxRaw = 2
  First = 2
  Capped = TRUE
SPECIFICATION Spec
INVARIANTS Sane PoolFits ResultsIndependent
CHECK_DEADLOCK FALSE
