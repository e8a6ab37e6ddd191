SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS KeyIsValid
PROPERTIES ChunkingIrrelevant Counted RefusedAgain
CONSTANTS
  Pieces <- AllPieces
  MaxHeld = 2
  MaxCalls = 3
  EmitOn = TRUE
  Decoders = 1
CHECK_DEADLOCK FALSE
