SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected
CONSTANTS
  Calls <- FindCalls
  StartMax <- Three
  MaxFlight = 20
  MaxCalls = 14
  Alone = TRUE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
