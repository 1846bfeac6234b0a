CONSTANTS
  MaxNodes = 3
  Wide = FALSE
  Emitting = TRUE
SPECIFICATION Spec
VIEW View
CONSTRAINT Small
INVARIANTS IndexExact WellFormedHeap EqualIsEquivalence CaselessFindsExact
CHECK_DEADLOCK FALSE
