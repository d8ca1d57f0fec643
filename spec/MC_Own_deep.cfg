SPECIFICATION Spec
CONSTANTS
  NOps = 4
  NRows = 7
INVARIANTS OneInFlight Owned Settled Clean Seen
PROPERTIES Once Kept
CHECK_DEADLOCK FALSE
