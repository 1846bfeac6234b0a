CONSTANTS
  Setters = {1, 2}
  Readers = {11, 12}
  Calls = 2
  Concerns = 2
  Protocol = "private"
SPECIFICATION Spec
INVARIANTS OneSetting InForce Settled
CHECK_DEADLOCK FALSE
