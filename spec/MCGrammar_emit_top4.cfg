SPECIFICATION Spec
CONSTANTS
  Chunks <- TopChunks
  MaxChunks = 4
  Prefix = ""
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
