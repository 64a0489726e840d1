SPECIFICATION Spec
CONSTANTS
  Kinds = {"vec", "list"}
  Limits <- PlainLimits
  PackedWidths <- NoWidths
  MaxLen = 4
  PMaxLen = 4
INVARIANTS RootCanonical ReadsBack Stored NoGarbage
CHECK_DEADLOCK FALSE
