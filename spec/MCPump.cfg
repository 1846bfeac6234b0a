CONSTANTS
  More = 3
SPECIFICATION Spec
INVARIANTS GrowsSteadily ReadFollows WrittenFollows Sharp
CHECK_DEADLOCK FALSE
