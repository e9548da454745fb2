SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 4
  Prefix = "a:enum{"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
