SPECIFICATION Spec
CONSTANTS
  Chunks <- TopChunks
  MaxChunks = 8
  Prefix = ""
  Emit = FALSE
INVARIANTS Viable BlankInsensitive CommentInsensitive CommaInsensitive ReadsBack DeadStays
CHECK_DEADLOCK FALSE
