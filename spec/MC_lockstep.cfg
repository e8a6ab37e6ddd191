SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS TypeOK BothBounded InStep
PROPERTIES EncoderFifo RefusalHasNoEffect LimitRespected
CONSTANTS
  Calls <- LockstepCalls
  StartMax <- Three
  MaxFlight = 6
  MaxCalls = 9
  Alone = FALSE
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
