SPECIFICATION Spec
CONSTANTS
  Pairs = FALSE
  MaxLen = 1
  Corruptions = {0, 1, 3}
INVARIANTS LayoutExact NothingLeft RoundTrip CutRefused Proper
