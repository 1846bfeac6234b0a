CONSTANTS
  MaxOps = 4
  Contents = {1, 2}
  Design = "copy"
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Isolated
PROPERTIES OneAtATime
CHECK_DEADLOCK FALSE
