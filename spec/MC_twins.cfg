SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded
PROPERTIES FirstAlone SecondAlone
CONSTANTS
  Calls <- TwinCalls
  StartMax <- Three
  MaxFlight = 6
  MaxCalls = 6
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
