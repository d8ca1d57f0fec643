SPECIFICATION Spec
CONSTANTS
  NOps = 2
  NCalls = 4
INVARIANTS AnyTree OneWay
  Fewer Composition Stateless Draining Ended Keys
CHECK_DEADLOCK FALSE
