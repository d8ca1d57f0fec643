SPECIFICATION Spec
CONSTANTS
  NOps = 3
  NCalls = 5
INVARIANTS AnyTree OneWay
  Fewer Composition Stateless Draining Ended Keys
CHECK_DEADLOCK FALSE
