SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected
CONSTANTS
  Calls <- IntCalls
  StartMax <- Wide
  MaxFlight = 1300
  MaxCalls = 3
  Alone = TRUE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
