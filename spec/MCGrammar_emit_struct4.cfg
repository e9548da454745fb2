SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 4
  Prefix = "a:struct{"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
