SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 6
  Prefix = "a:enum{"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
