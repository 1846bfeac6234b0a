CONSTANTS
  MaxOpts = 2
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS RefOK Discriminates LaterWins SameTokens
CHECK_DEADLOCK FALSE
