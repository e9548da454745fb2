SPECIFICATION Spec
CONSTANTS
  Chunks <- InnerChunks
  MaxChunks = 6
  Prefix = "a:enum{"
  Emit = FALSE
INVARIANTS Viable BlankInsensitive CommentInsensitive CommaInsensitive ReadsBack DeadStays
CHECK_DEADLOCK FALSE
