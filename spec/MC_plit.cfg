SPECIFICATION Spec
INVARIANTS ReadsBack Shortest RightShape Emitted
CONSTANTS
  Kind = "lit"
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
