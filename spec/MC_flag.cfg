SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected
CONSTANTS
  Calls <- FlagCalls
  StartMax <- Three
  MaxFlight = 20
  MaxCalls = 12
  Alone = TRUE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
