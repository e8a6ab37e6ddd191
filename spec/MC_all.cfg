SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected DecodeErrorAtomic
CONSTANTS
  Calls <- AllCalls
  StartMax <- Tiny
  MaxFlight = 2
  MaxCalls = 3
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
