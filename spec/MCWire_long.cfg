SPECIFICATION Spec
CONSTANTS
  Pairs = FALSE
  MaxLen = 2
  Corruptions = {0, 1, 2, 3, 4, 255}
INVARIANTS LayoutExact NothingLeft RoundTrip CutRefused Proper
