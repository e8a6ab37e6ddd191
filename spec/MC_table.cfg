SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TableBounded
PROPERTIES TableFifo
CONSTANTS
  Calls <- TableCalls
  StartMax <- Three
  MaxFlight = 0
  MaxCalls = 9
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
