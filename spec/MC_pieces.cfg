SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep CutAnywhere ExactIsPrefix
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected DecodeErrorAtomic
CONSTANTS
  Calls <- PiecesCalls
  StartMax <- Tiny
  MaxFlight = 7
  MaxCalls = 9
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
