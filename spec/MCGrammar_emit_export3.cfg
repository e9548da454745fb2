SPECIFICATION Spec
CONSTANTS
  Chunks <- TopChunks
  MaxChunks = 3
  Prefix = "export"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
