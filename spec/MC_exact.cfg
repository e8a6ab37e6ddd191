SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep CutAnywhere ExactIsPrefix
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected DecodeErrorAtomic
CONSTANTS
  Calls <- ExactCalls
  StartMax <- Tiny
  MaxFlight = 11
  MaxCalls = 5
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
