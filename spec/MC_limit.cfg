SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected DecodeErrorAtomic
CONSTANTS
  Calls <- LimitCalls
  StartMax <- Tiny
  MaxFlight = 6
  MaxCalls = 6
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
