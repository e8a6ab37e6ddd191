SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep CutAnywhere ExactIsPrefix
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected DecodeErrorAtomic
CONSTANTS
  Calls <- JunkCalls
  StartMax <- Tiny
  MaxFlight = 3
  MaxCalls = 9
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
