SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 6
  Prefix = "a:struct{"
  Emit = FALSE
INVARIANTS Viable BlankInsensitive CommentInsensitive CommaInsensitive ReadsBack DeadStays
CHECK_DEADLOCK FALSE
