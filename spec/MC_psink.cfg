SPECIFICATION Spec
ACTION_CONSTRAINT Emitted
INVARIANTS Truthful AlwaysPrefix
CONSTANTS
  MaxScript = 3
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
