SPECIFICATION Spec
CONSTANTS
  NOps = 3
  NRows = 5
INVARIANTS OneInFlight Owned Settled Clean Seen
PROPERTIES Once Kept
CHECK_DEADLOCK FALSE
