SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected
CONSTANTS
  Calls <- RefuseCalls
  StartMax <- Tiny
  MaxFlight = 8
  MaxCalls = 9
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
