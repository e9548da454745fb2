SPECIFICATION Spec
CONSTANTS
  Pairs = TRUE
  MaxLen = 1
  Corruptions = {1}
INVARIANTS LayoutExact NothingLeft RoundTrip CutRefused Proper
