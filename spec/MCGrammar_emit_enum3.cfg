SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 3
  Prefix = "a:enum{"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
