SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS KeyIsValid
PROPERTIES ChunkingIrrelevant Counted RefusedAgain
CONSTANTS
  Pieces <- TwinPieces
  MaxHeld = 12
  MaxCalls = 5
  EmitOn = TRUE
  Decoders = 2
CHECK_DEADLOCK FALSE
