SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 5
  Prefix = "a:struct{"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
