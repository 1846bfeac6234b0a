CONSTANTS
  Deep = FALSE
  Kinds = {"num", "cmp", "cnt", "get"}
  Emitting = TRUE
SPECIFICATION Spec
INVARIANTS ExactOrder Trichotomy NotNumbers EqualLaws ContainLaws GetterLaws
CHECK_DEADLOCK FALSE
