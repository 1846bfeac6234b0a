CONSTANTS
  Deep = FALSE
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS Canonical DistinctKeys IgnoreAdds OmitsEmpty ErrsMonotone Hides Sharp
CHECK_DEADLOCK FALSE
