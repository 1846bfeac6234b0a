CONSTANTS
  MaxDepth = 1
  MaxLen = 10
  Emitting = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Completable RoundTrip Agree
CHECK_DEADLOCK FALSE
