SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS KeyIsValid
PROPERTIES ChunkingIrrelevant Counted RefusedAgain
CONSTANTS
  Pieces <- GoodPieces
  MaxHeld = 24
  MaxCalls = 4
  EmitOn = TRUE
  Decoders = 1
CHECK_DEADLOCK FALSE
