CONSTANTS
  Deep = FALSE
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Judges Describing
PROPERTY Untouched
CHECK_DEADLOCK FALSE
