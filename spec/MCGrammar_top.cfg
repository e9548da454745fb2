SPECIFICATION Spec
CONSTANTS
  Chunks <- TopChunks
  MaxChunks = 6
  Prefix = ""
  Emit = FALSE
INVARIANTS Viable BlankInsensitive CommentInsensitive CommaInsensitive ReadsBack DeadStays
CHECK_DEADLOCK FALSE
