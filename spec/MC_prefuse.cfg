SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS KeyIsValid
PROPERTIES ChunkingIrrelevant Counted RefusedAgain
CONSTANTS
  Pieces <- RefusePieces
  MaxHeld = 20
  MaxCalls = 5
  EmitOn = TRUE
  Decoders = 1
CHECK_DEADLOCK FALSE
