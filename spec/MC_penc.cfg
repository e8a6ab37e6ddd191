SPECIFICATION Spec
INVARIANTS ReadsBack Shortest RightShape Emitted
CONSTANTS
  Kind = "enc"
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
