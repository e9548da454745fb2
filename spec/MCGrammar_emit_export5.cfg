SPECIFICATION Spec
CONSTANTS
  Chunks <- TopChunks
  MaxChunks = 5
  Prefix = "export"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
