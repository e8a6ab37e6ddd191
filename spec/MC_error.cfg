SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep CutAnywhere ExactIsPrefix
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected DecodeErrorAtomic
CONSTANTS
  Calls <- ErrorCalls
  StartMax <- Tiny
  MaxFlight = 12
  MaxCalls = 4
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
