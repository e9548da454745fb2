SPECIFICATION Spec
CONSTANTS
  Chunks <- TopChunks
  MaxChunks = 6
  Prefix = "export"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
