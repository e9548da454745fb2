SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 6
  Prefix = "a:struct{b:uint8"
  Emit = TRUE
INVARIANTS BlameTight Emitted
CHECK_DEADLOCK FALSE
