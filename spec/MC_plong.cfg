SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS KeyIsValid
PROPERTIES ChunkingIrrelevant Counted RefusedAgain
CONSTANTS
  Pieces <- LongPieces
  MaxHeld = 14
  MaxCalls = 4
  EmitOn = TRUE
  Decoders = 1
CHECK_DEADLOCK FALSE
